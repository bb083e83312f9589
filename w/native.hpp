// Included before a wrapper unit when it is compiled natively for replay: failed asserts become an outcome.
#include <cstdlib>
#include <csetjmp>
#include <assert.h>
static jmp_buf vc_jb;
extern "C" void __assert_fail(const char*,const char*,unsigned,const char*) noexcept { longjmp(vc_jb,1); }
extern "C" int vc_call( int(*f)(const double*,double*), const double* i, double* o )
{
	if( setjmp(vc_jb) ) return -1002;
	try { return f(i,o); }
	catch( ... ) { return -1001; }
}
