/* Called at every function of the random generator: callers that are inside it at the same time proceed in step. */
#include <errno.h>
#include <pthread.h>
#include <time.h>
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int left, waiting, turn;
void hx_lockstep(int on) { pthread_mutex_lock(&mu); left = on ? 40 : 0; pthread_mutex_unlock(&mu); }
void __cyg_profile_func_enter(void *f, void *c)
{
	(void)f; (void)c;
	pthread_mutex_lock(&mu);
	if (left > 0) {
		if (waiting) {
			waiting = 0;
			turn++;
			pthread_cond_broadcast(&cv);
		} else {
			struct timespec t;
			int now = turn;
			clock_gettime(CLOCK_REALTIME, &t);
			t.tv_nsec += 3000000;
			if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; }
			waiting = 1;
			while (turn == now)
				if (pthread_cond_timedwait(&cv, &mu, &t) == ETIMEDOUT) break;
			if (turn == now) { waiting = 0; left--; }
		}
	}
	pthread_mutex_unlock(&mu);
}
void __cyg_profile_func_exit(void *f, void *c) { (void)f; (void)c; }
