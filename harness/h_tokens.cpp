/* Cards of a bulk section as the tokenizer hands them out: one JSON array on standard output. */
#include <iostream>
#include <sstream>
#include "Nastran/NastranTokenizer.h"
using namespace std; using namespace vega; using namespace vega::nastran;
static string q(const string& s) {
    string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; }
    return r + "\"";
}
int main() {
    stringstream in; in << cin.rdbuf();
    try {
        NastranTokenizer t(in);
        t.bulkSection();
        string out = "[";
        for (t.nextLine(); t.nextSymbolType != NastranTokenizer::SymbolType::SYMBOL_EOF; t.nextLine()) {
            if (out.size() > 1) out += ",";
            out += "[" + q(t.nextString(true, ""));
            while (t.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_FIELD) out += "," + q(t.nextString(true, ""));
            out += "]";
        }
        cout << out << "]" << endl;
    } catch (const string& s) { cout << "{\"error\":" << q(s) << "}" << endl;
    } catch (const char* s) { cout << "{\"error\":" << q(s) << "}" << endl;
    } catch (const exception& e) { cout << "{\"error\":" << q(e.what()) << "}" << endl; }
    return 0;
}
