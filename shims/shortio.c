/* LD_PRELOAD: caps the byte count of read(2)/write(2) at SHORTIO bytes and, if
 * SHORTIO_EINTR is absent, never fails.  Legal kernel behaviour on any fd. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <unistd.h>

static size_t
cap(size_t n)
{
	static size_t max = 0;

	if (max == 0) {
		const char *s = getenv("SHORTIO");
		max = s != NULL ? strtoul(s, NULL, 10) : 0;
		if (max == 0)
			max = (size_t)-1;
	}
	return n < max ? n : max;
}

ssize_t
read(int fd, void *buf, size_t n)
{
	static ssize_t (*real)(int, void *, size_t);

	if (real == NULL)
		real = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
	return real(fd, buf, cap(n));
}

ssize_t
write(int fd, const void *buf, size_t n)
{
	static ssize_t (*real)(int, const void *, size_t);

	if (real == NULL)
		real = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
	return real(fd, buf, cap(n));
}
