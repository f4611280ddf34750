import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
INC = '''#include "cantera/clib/ct.h"
#include <cstdio>
#include <cstring>
#include <vector>
'''
mkseed("C09a", "C09", [("src/clib/Cabinet.h", """            if (lookup[data[n].get()].size() == 1) {
                // set only contains one index
                lookup.erase(data[n].get());
            } else {
                // remove index n from the reverse lookup table
                lookup[data[n].get()].erase(n);
            }""", """            auto entry = lookup.find(data[n].get());
            entry->second.erase(n);
            if (entry->second.size() <= 1) {
                lookup.erase(entry);
            }""")],
       "two handles name the same object (an adjacent phase fetched again) and one of them is deleted", "the phase of the other handle is no longer found",
       cpp=INC + '''int main() { int g = soln_newSolution("ptcombust.yaml", "gas", "none"); int adj[1] = {g};
  int s = soln_newInterface("ptcombust.yaml", "Pt_surf", 1, adj); int g2 = soln_adjacent(s, 0);
  if (g2 < 0 || soln_thermo(g2) < 0) return 2; soln_del(g2); return soln_thermo(g) == 0 && thermo_nSpecies(soln_thermo(g)) > 0 && soln_kinetics(g) >= 0 ? 0 : 1; }
''')
mkseed("C09b", "C09", [("src/clib/ct.cpp", """    int kin_getDestructionRates(int n, size_t len, double* ddot)
    {
        try {
            auto& k = KineticsCabinet::at(n);
            k->checkSpeciesArraySize(len);""", """    int kin_getDestructionRates(int n, size_t len, double* ddot)
    {
        try {
            auto& k = KineticsCabinet::at(n);
            k->checkReactionArraySize(len);""")],
       "an array shorter than the number of species, for a mechanism with fewer reactions than species", "values are written beyond the caller's array",
       cpp=INC + '''int main() { int s = soln_newSolution("gri30.yaml", "gri30", "none"); int a = soln_newInterface("ptcombust.yaml", "Pt_surf", 0, nullptr); (void) s;
  int k = soln_kinetics(a); size_t ns = kin_nSpecies(k), nr = kin_nReactions(k); if (!(nr < ns)) return 2;
  std::vector<double> v(ns + 10, -7.0); int r = kin_getDestructionRates(k, nr, v.data());
  for (size_t i = nr; i < v.size(); i++) if (v[i] != -7.0) return 1; return r < 0 ? 0 : 1; }
''')
mkseed("C09c", "C09", [("src/base/stringUtils.cpp", """    size_t N = std::min(length, source.length()+1);
    size_t ret = (length >= source.length() + 1) ? 0 : source.length() + 1;""", """    size_t N = std::min(length, source.length()+1);
    size_t ret = (length >= source.length()) ? 0 : source.length() + 1;""")],
       "a string buffer exactly as long as the string, without room for its end", "the truncated string is reported as complete",
       cpp=INC + '''int main() { int s = soln_newSolution("h2o2.yaml", "ohmech", "none"); char b[16]; int t = soln_thermo(s);
  return thermo_getName(t, 7, b) == 0 && !strcmp(b, "ohmech") && thermo_getName(t, 6, b) == 7 && thermo_getName(t, 3, b) == 7 ? 0 : 1; }
''')
mkseed("C09d", "C09", [("src/clib/ct.cpp", """                if (soln->transport()) {
                    index = TransportCabinet::index(*(soln->transport()), n);
                    if (index >= 0) {
                        TransportCabinet::del(index);
                    }
                }
            }
            SolutionCabinet::del(n);""", """                if (soln->transport()) {
                    index = TransportCabinet::index(*(soln->transport()), n);
                    if (index > 0) {
                        TransportCabinet::del(index);
                    }
                }
            }
            SolutionCabinet::del(n);""")],
       "the solution with the first transport handle is deleted", "its transport handle goes on working",
       cpp=INC + '''int main() { int s = soln_newSolution("gri30.yaml", "gri30", "mixture-averaged"); int t = soln_transport(s); char b[40];
  if (t != 0 || trans_transportModel(t, 40, b) != 0) return 2; soln_del(s); return trans_transportModel(t, 40, b) < 0 ? 0 : 1; }
''')
