/* C24: messages with two arguments, part 3 */
#include "cppval.h"
void c24_rows3(int i)
{
	Pipe p; P = &p;
	switch (i) {
	case 0: row<ArgI64>(); break;
	case 1: row<ArgU64>(); break;
	case 2: row<ArgStr>(); break;
	}
	p.done();
}
