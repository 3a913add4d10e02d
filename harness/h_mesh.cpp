/* Executes a script of operations on a Mesh and on a NodeContainer; one line of integers per operation. */
#include <iostream>
#include <sstream>
#include <memory>
#include <vector>
#include "Abstract/Mesh.h"
using namespace std; using namespace vega;
static string o;
static void put(long x) { o += " " + to_string(x); }
static long num(double x) { if (x != (long)x || x > 1e8 || x < -1e8) return 888888; return (long)x; }
static long pos(pos_t p) { return p == Globals::UNAVAILABLE_POS ? -1 : (long)p; }
static int mask(const DOFS& s) { int m = 0; for (int d = 1; d <= 6; d++) if (s.contains(DOF::findByPosition(d - 1))) m |= 1 << (d - 1); return m; }
template <class C> static void puts_(const C& c) { put(c.size()); for (auto x : c) put((long)x); }
static const CellType& type(int k) {
    switch (k) { case 1: return CellType::POINT1; case 2: return CellType::SEG2; case 3: return CellType::TRI3; case 4: return CellType::QUAD4; case 5: return CellType::TETRA4;
      case 6: return CellType::SEG3; case 7: return CellType::TRI6; case 8: return CellType::QUAD8; case 9: return CellType::TETRA10; case 10: return CellType::PYRA5; case 11: return CellType::PYRA13;
      case 12: return CellType::PENTA6; case 13: return CellType::PENTA15; case 14: return CellType::HEXA8; case 15: return CellType::HEXA20;
      case 23: return CellType::POLY3; case 24: return CellType::POLY4; default: return CellType::POLY5; } }
static int code(const CellType& t) { for (int k : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 23, 24, 25}) if (type(k) == t) return k; return -1; }
static void putcell(const Cell& c) { put(c.id); put(pos(c.position)); put(code(c.type)); puts_(c.nodeIds); puts_(c.nodePositions); }
int main() {
    Mesh m(LogLevel::INFO, "m"); NodeContainer K(m);
    string line;
    while (getline(cin, line)) {
        istringstream in(line); string op; in >> op; o = "R";
        auto I = [&]() { int x = 0; in >> x; return x; };
        auto G = [&]() { return "G" + to_string(I()); };
        auto L = [&]() { int n = I(); vector<int> v; while (n-- > 0) v.push_back(I()); return v; };
        auto NG = [&](const string& n) { return dynamic_pointer_cast<NodeGroup>(m.findGroup(n)); };
        auto CG = [&](const string& n) { return dynamic_pointer_cast<CellGroup>(m.findGroup(n)); };
        if (op == "node") { int id = I(), x = I(), y = I(), z = I(); put(pos(m.addNode(id, x, y, z))); put(m.countNodes()); }
        else if (op == "anode") { int x = I(), y = I(), z = I(); pos_t p = m.addNode(Node::AUTO_ID, x, y, z); put(pos(p)); put(m.findNodeId(p)); }
        else if (op == "reserve") put(pos(m.findOrReserveNode(I())));
        else if (op == "reserves") { auto v = L(); puts_(m.findOrReserveNodes(set<int>(v.begin(), v.end()))); }
        else if (op == "allow") { int p = I(), d = I(); m.allowDOFS(p, DOFS(d & 1, d & 2, d & 4, d & 8, d & 16, d & 32)); put(0); }
        else if (op == "cell") { int id = I(), t = I(); auto v = L(); put(pos(m.addCell(id, type(t), v))); put(m.countCells()); put(m.countCells(type(t))); }
        else if (op == "acell") { int t = I(); auto v = L(); pos_t p = m.addCell(Cell::AUTO_ID, type(t), v); put(pos(p)); put(m.findCellId(p)); }
        else if (op == "ucell") { int id = I(), t = I(); auto v = L(); put(pos(m.updateCell(id, type(t), v))); }
        else if (op == "ask") { int id = I(); put(pos(m.findNodePosition(id))); put(m.hasCell(id)); put(pos(m.findCellPosition(id))); }
        else if (op == "ngroup" || op == "cgroup" || op == "fgroup") {
            string n = G(); int g = I(); int id = g == 0 ? NodeGroup::NO_ORIGINAL_ID : g;
            try { if (op == "ngroup") m.createNodeGroup(n, id); else if (op == "cgroup") m.createCellGroup(n, id); else m.findOrCreateNodeGroup(n, id); put(0); } catch (const invalid_argument&) { put(1); } }
        else if (op == "rmgroup") { m.removeGroup(G()); put(0); }
        else if (op == "rename") { string a = G(), b = G(); try { m.renameGroup(a, b, "c"); put(0); } catch (const invalid_argument&) { put(1); } }
        else if (op == "gnode") { string n = G(); NG(n)->addNodeId(I()); put(0); }
        else if (op == "gnodes") { string n = G(); NG(n)->addNodeIds(L()); put(0); }
        else if (op == "gnodepos") { string n = G(); int p = I(); if (p % 2) NG(n)->addNodeByPosition(p); else NG(n)->addNode(m.findNode(p)); put(0); }
        else if (op == "gnoderm") { string n = G(); NG(n)->removeNodeByPosition(I()); put(0); }
        else if (op == "gcell") { string n = G(); CG(n)->addCellId(I()); put(0); }
        else if (op == "gcells") { string n = G(); auto v = L(); CG(n)->addCellIds(v); put(0); }
        else if (op == "gcellpos") { string n = G(); CG(n)->addCellPosition(I()); put(0); }
        else if (op == "gcellrm") { string n = G(); CG(n)->removeCellPosition(I()); put(0); }
        else if (op == "knode") { K.addNodeId(I()); put(0); }
        else if (op == "kcell") { K.addCellId(I()); put(0); }
        else if (op == "kngroup") { K.add(*NG(G())); put(0); }
        else if (op == "kcgroup") { string n = G(); K.addCellGroup(n); put(0); }
        else if (op == "kclear") { K.clear(); put(0); }
        else if (op == "k") {
            puts_(K.getNodeIdsIncludingGroups()); puts_(K.getNodeIdsExcludingGroups()); puts_(K.getNodePositionsIncludingGroups()); puts_(K.getNodePositionsExcludingGroups());
            puts_(K.getCellIdsIncludingGroups()); puts_(K.getCellIdsExcludingGroups()); puts_(K.getCellPositionsIncludingGroups()); puts_(K.getCellPositionsExcludingGroups());
            vector<int> a, b; for (const Cell& c : K.getCellsIncludingGroups()) a.push_back(c.id); for (const Cell& c : K.getCellsExcludingGroups()) b.push_back(c.id); puts_(a); puts_(b);
            put(K.hasNodeGroups()); put(K.hasCellGroups()); put(K.hasNodesIncludingGroups()); put(K.hasNodesExcludingGroups()); put(K.hasCellsIncludingGroups()); put(K.hasCellsExcludingGroups()); put(K.empty()); }
        else if (op == "nodes") {
            put(m.countNodes());
            for (size_t p = 0; p < m.countNodes(); p++) { const Node n = m.findNode(p); put(n.id); put(m.findNodeId(p)); put(pos(m.findNodePosition(n.id))); put(pos(n.position)); put(num(n.x)); put(num(n.y)); put(num(n.z)); put(mask(n.dofs)); }
            vector<int> ids; for (auto it = m.nodes.begin(); it.hasNext();) ids.push_back(it.next().id); puts_(ids);
            if (!ids.empty()) { put(m.nodes.getMinNodeId()); put(m.nodes.getMaxNodeId()); } }
        else if (op == "cellat") { int p = I(); putcell(m.findCell(p)); }
        else if (op == "bytype") { for (int t : {1, 2, 3, 4, 5}) { put(m.countCells(type(t))); for (auto it = m.cells.cells_begin(type(t)); it.hasNext();) put(it.next().id); } }
        else if (op == "group") {
            string n = G(); put(m.hasGroup(n)); auto g = m.findGroup(n);
            if (g) {
                auto a = dynamic_pointer_cast<NodeGroup>(g); auto c = dynamic_pointer_cast<CellGroup>(g);
                put(g->getName() == n); put(a ? 1 : 2); put(g->empty()); puts_(g->nodePositions());
                if (a) puts_(a->getNodeIds()); else { puts_(c->cellIds()); puts_(c->cellPositions()); } } }
        else if (op == "gids") { for (int i = 1; i <= 4; i++) { put(m.hasGroup(i)); auto g = m.findGroup(i); put(g ? stoi(g->getName().substr(1)) : 0); }
            for (const auto& g : m.getNodeGroups()) put(stoi(g->getName().substr(1))); put(0); for (const auto& g : m.getCellGroups()) put(stoi(g->getName().substr(1))); }
        cout << o << endl;
    }
    return 0;
}
