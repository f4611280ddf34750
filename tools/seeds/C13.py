import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
INC = '''#include "cantera/numerics/Func1Factory.h"
#include <cmath>
#include <cstdio>
using namespace Cantera;
'''
F = "src/numerics/Func1.cpp"
mkseed("C13a", "C13", [(F, "        return {true, f2->c() / f1->c()};", "        return {true, f1->c() / f2->c()};")],
       "a sum or difference of two scaled functions with different factors", "2*exp(x) - 3*exp(x) evaluates to something else",
       cpp=INC + '''int main() { auto e = newFunc1("exp", 1.); auto a = newTimesConstFunction(e, 2.), b = newTimesConstFunction(newFunc1("exp", 1.), 3.);
  double v = newDiffFunction(a, b)->eval(0.3), w = newSumFunction(a, b)->eval(0.3);
  return std::abs(v + std::exp(0.3)) < 1e-9 && std::abs(w - 5 * std::exp(0.3)) < 1e-9 ? 0 : 1; }
''')
mkseed("C13b", "C13", [(F, """        if (!m_f2->isIdentical(other->m_f2)) {
            return false;
        }
    }
    return true;""", """        return other->m_f2->type() == m_f2->type();
    }
    return true;""")],
       "two compound functions that differ only in the parameter of their second operand, combined in a sum, difference or ratio",
       "sin(x)*x^2 - sin(x)*x^3 is simplified to zero",
       cpp=INC + '''int main() { auto s = newFunc1("sin", 1.); auto a = newProdFunction(s, newFunc1("pow", 2.)), b = newProdFunction(s, newFunc1("pow", 3.));
  double x = 0.7, v = newDiffFunction(a, b)->eval(x);
  return std::abs(v - std::sin(x) * (x * x - x * x * x)) < 1e-9 ? 0 : 1; }
''')
mkseed("C13c", "C13", [(F, """    auto d3 = newCompositeFunction(d1, m_f2);
    return newProdFunction(d3, d2);""", """    if (d1->type() == "times-constant") {
        auto d3 = newCompositeFunction(d1->func1_shared(), m_f2);
        return newProdFunction(d3, newTimesConstFunction(d2, d1->c()));
    }
    auto d3 = newCompositeFunction(d1, m_f2);
    return newProdFunction(d3, d2->type() == "constant" ? d2 : m_f2->derivative()->derivative());""")],
       "the derivative of a composition whose outer function has a derivative that is not a multiple of another, and whose inner function is not linear",
       "the derivative of exp(x^3) is wrong",
       cpp=INC + '''int main() { auto e = newCompositeFunction(newFunc1("exp", 1.), newFunc1("pow", 3.));
  double x = 0.7, v = e->derivative()->eval(x);
  return std::abs(v - 3 * x * x * std::exp(x * x * x)) < 1e-9 ? 0 : 1; }
''')
