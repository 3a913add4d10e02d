/* Faces of one solid element: "elem <type> <n ids>" then "ask a b" (identifiers, b = 0: only one). */
#include <iostream>
#include <sstream>
#include "Abstract/Mesh.h"
using namespace std; using namespace vega;
template <class C> static void put(const char* k, const C& c) { cout << "R " << k; for (int x : c) cout << " " << x; cout << endl; }
int main() {
    Mesh m(LogLevel::INFO, "m"); string line; pos_t p = 0;
    while (getline(cin, line)) {
        istringstream in(line); string op; in >> op;
        if (op == "elem") {
            string t; in >> t; vector<int> v; int x; while (in >> x) v.push_back(x);
            bool q = v.size() > 8 || (v.size() > 4 && t == "TETRA");
            const CellType& ct = t == "TETRA" ? (q ? CellType::TETRA10 : CellType::TETRA4) : t == "PYRA" ? (q ? CellType::PYRA13 : CellType::PYRA5) : t == "PENTA" ? (q ? CellType::PENTA15 : CellType::PENTA6) : (q ? CellType::HEXA20 : CellType::HEXA8);
            for (int i : v) m.addNode(i, i, 0, 0);
            p = m.addCell(1, ct, v);
            const Cell c = m.findCell(p);
            for (const auto& kv : c.nodeIdsByFaceNum()) put("f", kv.second);
            put("c", c.cornerNodeIds());
        } else {
            int a, b; in >> a >> b; const Cell c = m.findCell(p);
            put("a", b ? c.faceids_from_two_nodes(a, b) : c.faceids_from_two_nodes(a));
        }
    }
}
