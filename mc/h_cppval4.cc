/* C24: messages with two arguments, part 4 */
#include "cppval.h"
void c24_rows4(int i)
{
	Pipe p; P = &p;
	switch (i) {
	case 0: row<ArgBuf>(); break;
	case 1: row<ArgF32>(); break;
	case 2: row<ArgF64>(); break;
	}
	p.done();
}
