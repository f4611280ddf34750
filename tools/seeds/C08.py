import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
INC = '''#include "cantera/base/SolutionArray.h"
#include "cantera/base/Solution.h"
#include "cantera/thermo/ThermoPhase.h"
#include <cstdio>
#include <cmath>
#include <unistd.h>
using namespace Cantera;
static AnyValue vec(vector<double> v) { AnyValue a; a = v; return a; }
static AnyValue one(double v) { AnyValue a; a = v; return a; }
'''
F = "src/base/SolutionArray.cpp"
mkseed("C08b", "C08", [(F, """            m_order->emplace(m_order->rbegin()->first + 1, name);""", """            m_order->emplace(static_cast<int>(m_order->size()), name);""")],
       "an extra component added in front of the state after others were added at the end", "the component is missing from the list of components",
       cpp=INC + '''int main() { auto s = newSolution("h2o2.yaml", "ohmech", "none"); auto a = SolutionArray::create(s, 2);
  a->addExtra("x", true); a->addExtra("y", false); auto n = a->componentNames(); return n.front() == "y" && n.back() == "x" && a->listExtra().size() == 2 ? 0 : 1; }
''')
mkseed("C08c", "C08", [(F, """        for (size_t k = 0; k < slice.size(); ++k) {
            vec[slice[k]] = value;
        }""", """        std::fill_n(vec.begin() + *std::min_element(slice.begin(), slice.end()),
                    slice.size(), value);""")],
       "a scalar is assigned to an extra component through a slice whose locations are not consecutive", "locations outside the slice are overwritten",
       cpp=INC + '''int main() { auto s = newSolution("h2o2.yaml", "ohmech", "none"); auto a = SolutionArray::create(s, 4); a->addExtra("x"); a->setComponent("x", vec({1, 2, 3, 4}));
  auto b = a->share({1, 3}); b->setComponent("x", one(9)); auto v = a->getComponent("x").asVector<double>();
  return v[0] == 1 && v[1] == 9 && v[2] == 3 && v[3] == 9 ? 0 : 1; }
''')
mkseed("C08f", "C08", [(F, """            m_active.push_back(other.m_active.at(loc));""", """            m_active.push_back(other.m_active.size() == other.m_dataSize ? loc : other.m_active.at(loc));""")],
       "a slice of a reordered view of the whole array", "the slice refers to other locations",
       cpp=INC + '''int main() { auto s = newSolution("h2o2.yaml", "ohmech", "none"); auto a = SolutionArray::create(s, 3); a->addExtra("x"); a->setComponent("T", vec({300, 400, 500}));
  auto b = a->share({2, 0, 1}); auto c = b->share({0, 1}); auto v = c->getComponent("T").asVector<double>();
  return v[0] == 500 && v[1] == 300 ? 0 : 1; }
''')
