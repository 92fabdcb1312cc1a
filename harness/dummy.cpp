#include <ply-runtime/Base.h>
int main(){ ply::StdOut::text() << "hi\n"; return 0; }
