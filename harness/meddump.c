/* Dumps the mesh of one or more MED files (as written for Code_Aster) as one JSON line per file. */
#include <med.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const int TYPES[] = {MED_POINT1,MED_SEG2,MED_SEG3,MED_SEG4,MED_TRIA3,MED_TRIA6,MED_TRIA7,MED_QUAD4,MED_QUAD8,MED_QUAD9,
  MED_TETRA4,MED_TETRA10,MED_PYRA5,MED_PYRA13,MED_PENTA6,MED_PENTA15,MED_HEXA8,MED_HEXA20,MED_HEXA27};
static int dump(const char *fn) {
  med_idt f = MEDfileOpen(fn, MED_ACC_RDONLY);
  if (f < 0) { printf("{\"error\":\"open\"}\n"); return 1; }
  if (MEDnMesh(f) != 1) { printf("{\"error\":\"meshes\"}\n"); return 1; }
  char name[MED_NAME_SIZE+1], desc[MED_COMMENT_SIZE+1], dt[MED_SNAME_SIZE+1], an[3*MED_SNAME_SIZE+1], un[3*MED_SNAME_SIZE+1];
  med_int sd, md, nst; med_mesh_type mt; med_sorting_type st; med_axis_type at;
  if (MEDmeshInfo(f, 1, name, &sd, &md, &mt, desc, dt, &st, &nst, &at, an, un) < 0) { printf("{\"error\":\"info\"}\n"); return 1; }
  med_bool cc, tt;
  med_int n = MEDmeshnEntity(f, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NO_GEOTYPE, MED_COORDINATE, MED_NO_CMODE, &cc, &tt);
  printf("{\"nodes\":[");
  if (n > 0) {
    double *c = malloc(sizeof(double)*3*n);
    med_int *fam = calloc(n, sizeof(med_int));
    MEDmeshNodeCoordinateRd(f, name, MED_NO_DT, MED_NO_IT, MED_FULL_INTERLACE, c);
    MEDmeshEntityFamilyNumberRd(f, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE, fam);
    for (med_int i = 0; i < n; i++) printf("%s[%.17g,%.17g,%.17g,%d]", i ? "," : "", c[3*i], c[3*i+1], c[3*i+2], (int)fam[i]);
    free(c); free(fam);
  }
  printf("],\"cells\":[");
  int first = 1;
  for (unsigned t = 0; t < sizeof TYPES / sizeof *TYPES; t++) {
    med_int k = MEDmeshnEntity(f, name, MED_NO_DT, MED_NO_IT, MED_CELL, TYPES[t], MED_CONNECTIVITY, MED_NODAL, &cc, &tt);
    if (k <= 0) continue;
    int nn = TYPES[t] % 100;
    med_int *con = malloc(sizeof(med_int)*nn*k), *fam = calloc(k, sizeof(med_int)), *num = calloc(k, sizeof(med_int));
    MEDmeshElementConnectivityRd(f, name, MED_NO_DT, MED_NO_IT, MED_CELL, TYPES[t], MED_NODAL, MED_FULL_INTERLACE, con);
    MEDmeshEntityFamilyNumberRd(f, name, MED_NO_DT, MED_NO_IT, MED_CELL, TYPES[t], fam);
    MEDmeshEntityNumberRd(f, name, MED_NO_DT, MED_NO_IT, MED_CELL, TYPES[t], num);
    for (med_int i = 0; i < k; i++) {
      printf("%s[%d,%d,%d,[", first ? "" : ",", TYPES[t], (int)num[i], (int)fam[i]); first = 0;
      for (int j = 0; j < nn; j++) printf("%s%d", j ? "," : "", (int)con[i*nn+j]);
      printf("]]");
    }
    free(con); free(fam); free(num);
  }
  printf("],\"families\":{");
  med_int nf = MEDnFamily(f, name); first = 1;
  for (med_int i = 1; i <= nf; i++) {
    med_int ng = MEDnFamilyGroup(f, name, i), id;
    char fname[MED_NAME_SIZE+1];
    char *g = calloc((ng > 0 ? ng : 1) * MED_LNAME_SIZE + 1, 1);
    MEDfamilyInfo(f, name, i, fname, &id, g);
    printf("%s\"%d\":[", first ? "" : ",", (int)id); first = 0;
    for (med_int j = 0; j < ng; j++) {
      char b[MED_LNAME_SIZE+1]; memcpy(b, g + j*MED_LNAME_SIZE, MED_LNAME_SIZE); b[MED_LNAME_SIZE] = 0;
      int l = strlen(b); while (l > 0 && b[l-1] == ' ') b[--l] = 0;
      printf("%s\"%s\"", j ? "," : "", b);
    }
    printf("]"); free(g);
  }
  printf("}}\n");
  MEDfileClose(f);
  return 0;
}
int main(int c, char **v) { for (int i = 1; i < c; i++) dump(v[i]); return 0; }
