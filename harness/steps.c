/*
 * Counts executed basic blocks (-fsanitize-coverage=trace-pc).  STEPS_MAX ends
 * the process with status 90 once exceeded, STEPS_FILE receives the number of
 * steps and the peak resident size in kilobytes.
 */
#include <sys/resource.h>

#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#define NOCOV	__attribute__((no_sanitize_coverage))

static unsigned long long steps, max;
static int owner;

NOCOV static void
report(void)
{
	const char *path = getenv("STEPS_FILE");
	struct rusage ru;
	char buf[64];
	int fd, n;

	if (path == NULL || getpid() != owner)
		return;
	getrusage(RUSAGE_SELF, &ru);
	n = snprintf(buf, sizeof(buf), "%llu %ld\n", steps, ru.ru_maxrss);
	fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd == -1)
		return;
	if (write(fd, buf, n) != n)
		abort();
	close(fd);
}

NOCOV __attribute__((constructor)) static void
start(void)
{
	const char *s = getenv("STEPS_MAX");

	owner = getpid();
	max = s != NULL ? strtoull(s, NULL, 10) : 0;
}

NOCOV __attribute__((destructor)) static void
stop(void)
{
	report();
}

NOCOV void
__sanitizer_cov_trace_pc(void)
{
	if (++steps > max && max != 0) {
		report();
		_exit(90);
	}
}
