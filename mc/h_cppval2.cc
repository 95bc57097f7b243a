/* C24: messages with two arguments, part 2 */
#include "cppval.h"
void c24_rows2(int i)
{
	Pipe p; P = &p;
	switch (i) {
	case 0: row<ArgU16>(); break;
	case 1: row<ArgI32>(); break;
	case 2: row<ArgU32>(); break;
	}
	p.done();
}
