/* C24: messages with two arguments, part 1 */
#include "cppval.h"
void c24_rows1(int i)
{
	Pipe p; P = &p;
	switch (i) {
	case 0: row<ArgI8>(); break;
	case 1: row<ArgU8>(); break;
	case 2: row<ArgI16>(); break;
	}
	p.done();
}
