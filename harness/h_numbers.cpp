/* Number fields and lists as the tokenizer reads them. Cards REALS (reals, blank = 0) and INTS (one list). */
#include <iostream>
#include <sstream>
#include "Nastran/NastranTokenizer.h"
using namespace std; using namespace vega; using namespace vega::nastran;
int main() {
    stringstream in; in << cin.rdbuf();
    cout.precision(17);
    try {
        NastranTokenizer t(in);
        t.bulkSection();
        for (t.nextLine(); t.nextSymbolType != NastranTokenizer::SymbolType::SYMBOL_EOF; t.nextLine()) {
            string kw = t.nextString(true, "");
            cout << kw;
            if (kw == "REALS") while (t.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_FIELD) cout << " " << t.nextDouble(true, 0.0);
            else if (kw == "INTS") for (int i : t.nextInts()) cout << " " << i;
            cout << endl;
        }
        cout << "END" << endl;
    } catch (const string& s) { cout << "\nERROR " << s << endl;
    } catch (const exception& e) { cout << "\nERROR " << e.what() << endl; }
    return 0;
}
