// E08: which statements over typed fields, masks, single values and operators the compiler accepts (judged by tools/gen_types.py).
#include "pbt.h"
#include <cstring>
using std::string;
struct Row { const char* text; int expected, observed; const char* what; const char* error; };
static const Row ROWS[] = {
#include "types.inc"
};
enum { N = sizeof(ROWS)/sizeof(ROWS[0]) };
PBT_TARGET("statements",1){ int i=(int)c.draw(N), n=(int)c.draw(64); c.note(ROWS[i].text); c.nontrivial(strlen(ROWS[i].text)>110);
  for(int k=i;k<=i+n&&k<N;++k){ const Row& r=ROWS[k]; if(r.expected){ c.label("well typed"); PBT_REQUIRE(c,r.observed,"E08:rejected","a well-typed statement does not compile: "<<r.text<<"  ("<<r.error<<")"); }
    else { c.label("other type somewhere"); PBT_REQUIRE(c,!r.observed,"E08:accepted","a statement that mixes types compiles: "<<r.text<<"  ("<<r.what<<")"); } } }
PBT_MAIN
