#ifndef VERIF_SCREEN_HPP
#define VERIF_SCREEN_HPP
#include <sys/syscall.h>
#include <unistd.h>
#include <cerrno>
#include <cstdarg>
// the terminal the progress bars believe in: its width, or none at all
static long screen = 80;
extern "C" int ioctl( int fd, unsigned long request, ... )
{
    va_list ap; va_start( ap, request ); void* p = va_arg( ap, void* ); va_end( ap );
    if ( request != 0x5413 ) return syscall( SYS_ioctl, fd, request, p );
    if ( screen < 0 ) { errno = ENOTTY; return -1; }
    unsigned short* w = static_cast<unsigned short*>( p ); w[0] = 25; w[1] = screen; w[2] = w[3] = 0; return 0;
}
#endif
