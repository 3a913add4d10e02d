/* Executes a script of operations on DOFS, DOFMatrix and DOFCoefs; one line of integers per operation. */
#include <iostream>
#include <sstream>
#include <memory>
#include <vector>
#include "Abstract/Dof.h"
using namespace std; using namespace vega;
static const double ABSENT = Globals::UNAVAILABLE_DOUBLE;
static long num(double x) { if (x == ABSENT) return 999999; if (x != (long)x || x > 1e8 || x < -1e8) return 888888; return (long)x; }
static DOF dof(int d) { return DOF::findByPosition(d - 1); }
static DOFS fromMask(int m) { return DOFS(m & 1, m & 2, m & 4, m & 8, m & 16, m & 32); }
static int mask(const DOFS& s) { int m = 0; for (int d = 1; d <= 6; d++) if (s.contains(dof(d))) m |= 1 << (d - 1); return m; }
static void put(const vector<double>& v) { cout << " " << v.size(); for (double x : v) cout << " " << num(x); }
int main() {
    DOFS S[4]; unique_ptr<DOFMatrix> M[3]; DOFCoefs C[3];
    for (auto& m : M) m.reset(new DOFMatrix(MatrixType::FULL));
    string line;
    while (getline(cin, line)) {
        istringstream in(line); string op; in >> op;
        auto I = [&]() { int x = 0; in >> x; return x; };
        if (op == "pairs") {   // every pair of sets
            for (int a = 0; a < 64; a++) for (int b = 0; b < 64; b++) {
                DOFS x = fromMask(a), y = fromMask(b);
                cout << mask(x + y) << " " << mask(x - y) << " " << mask(x & y) << " " << mask(x.intersection(y)) << " " << x.containsAll(y) << " " << x.containsAnyOf(y) << " " << (x == y) << " ";
            }
        } else if (op == "singles") {
            for (int a = 0; a < 64; a++) {
                DOFS x = fromMask(a);
                cout << mask(x) << " " << x.size() << " " << x.empty() << " " << x.nastranCode() << " ";
                int n = 0; for (DOF d : x) { n = n * 10 + d.position + 1; } cout << n << " ";
                cout << (a == 0 ? 0 : mask(DOFS::nastranCodeToDOFS(x.nastranCode()))) << " ";
                for (int d = 1; d <= 6; d++) { DOFS z = x; z += dof(d); cout << x.contains(dof(d)) << " " << mask(x + dof(d)) << " " << mask(x - dof(d)) << " " << mask(z) << " "; }
            }
        } else if (op == "code") { int r = I(), c = I(); try { S[r] = DOFS::nastranCodeToDOFS(c); cout << mask(S[r]); } catch (const exception&) { cout << -1; } }
        else if (op == "bool") { int r = I(); S[r] = fromMask(I()); cout << mask(S[r]); }
        else if (op == "add") { int r = I(), a = I(), b = I(); S[r] = S[a] + S[b]; cout << mask(S[r]); }
        else if (op == "sub") { int r = I(), a = I(), b = I(); S[r] = S[a] - S[b]; cout << mask(S[r]); }
        else if (op == "and") { int r = I(), a = I(), b = I(); S[r] = S[a] & S[b]; cout << mask(S[r]); }
        else if (op == "plus") { int r = I(), a = I(); S[r] += S[a]; cout << mask(S[r]); }
        else if (op == "addd") { int r = I(); S[r] += dof(I()); cout << mask(S[r]); }
        else if (op == "subd") { int r = I(); S[r] = S[r] - dof(I()); cout << mask(S[r]); }
        else if (op == "assign") { int r = I(); S[r] = dof(I()); cout << mask(S[r]); }
        else if (op == "mnew") { int r = I(), t = I(); M[r].reset(new DOFMatrix(t == 0 ? MatrixType::FULL : t == 1 ? MatrixType::SYMMETRIC : MatrixType::DIAGONAL)); cout << 0; }
        else if (op == "madd") { int r = I(), i = I(), j = I(), v = I(); try { M[r]->addComponent(dof(i), dof(j), v); cout << 0; } catch (const logic_error&) { cout << 1; } }
        else if (op == "mzero") { M[I()]->setAllZero(); cout << 0; }
        else if (op == "mtr") { int r = I(), a = I(); M[r].reset(new DOFMatrix(M[a]->transposed())); cout << 0; }
        else if (op == "mq") {
            int r = I(), b = I(); DOFMatrix& m = *M[r];
            for (int i = 1; i <= 6; i++) for (int j = 1; j <= 6; j++) cout << num(m.findComponent(dof(i), dof(j))) << " ";
            cout << m.hasTranslations() << " " << m.hasRotations() << " " << m.isDiagonal() << " " << m.isSymmetric() << " " << m.isEmpty() << " " << m.isZero() << " " << m.isEqual(*M[b]) << " " << M[b]->isEqual(m);
            put(m.diagonal(false)); put(m.diagonal(true)); put(m.asUpperTriangularColumnsVector(false)); put(m.asUpperTriangularColumnsVector(true)); put(m.asColumnsVector(false)); put(m.asColumnsVector(true));
        } else if (op == "cnew") { int r = I(), s = I(), v = I(); C[r] = DOFCoefs(fromMask(s), v); cout << 0; }
        else if (op == "cdof") { int r = I(), d = I(), v = I(); C[r] = DOFCoefs(dof(d), v); cout << 0; }
        else if (op == "cset") { int r = I(), d = I(), v = I(); C[r].setValue(dof(d), v); cout << 0; }
        else if (op == "cadd") { int r = I(), a = I(); C[r] += C[a]; cout << 0; }
        else if (op == "cmul") { int r = I(); C[r] *= I(); cout << 0; }
        else if (op == "cq") {
            int r = I(), b = I();
            for (int d = 1; d <= 6; d++) cout << num(C[r].getValue(dof(d))) << " " << num(C[r][d - 1]) << " ";
            cout << mask(C[r].getDOFS()) << " " << C[r].isEmpty() << " " << (C[r] == C[b]) << " " << (C[r] < C[b]) << " " << (C[b] < C[r]);
        }
        cout << endl;
    }
    return 0;
}
