ID='root-of-long-chain'; PROP='C33'
NEEDS='an error with at least four elements in the chain of its reasons'
BREAKS='root() returns an inner element of the chain instead of the original cause'
EDITS=[('src/rotor/extended_error.cpp','    while (n->next) {\n        n = n->next;\n    }\n','    if (n->next) {\n        n = n->next;\n    }\n')]
DEMO=r'''
#include "demo.h"
int main() {
    auto ec = [](int i) { return r::make_error_code(static_cast<r::error_code_t>(i)); };
    auto a = r::make_error("a", ec(1)), b = r::make_error("b", ec(2), a), c = r::make_error("c", ec(3), b), d = r::make_error("d", ec(4), c), e = r::make_error("e", ec(5), d);
    EXPECT(a->root() == a); EXPECT(b->root() == a); EXPECT(c->root() == a); EXPECT(d->root() == a); EXPECT(e->root() == a);
    auto s = e->message();
    EXPECT(s.find("a ") != std::string::npos && s.find("e ") == 0);
}
'''
