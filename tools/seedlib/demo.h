#pragma once
// runs demo() inside an amelie task; demo_fail() ends the process with exit code 1
#include <amelie_runtime>
#include <amelie_server>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>

static int demo_rc = 2;
#define check(expr) do { if (! (expr)) { \
	printf("FAILED %d: %s\n", __LINE__, #expr); fflush(stdout); _exit(1); } } while (0)

static void demo(void);

static void
demo_task(void* arg)
{
	(void)arg;
	auto on_error = error_catch( demo(); );
	if (on_error)
	{
		printf("unexpected error: %.*s\n", (int)buf_size(&am_self()->error.text),
		       buf_cstr(&am_self()->error.text));
		fflush(stdout);
		_exit(1);
	}
	demo_rc = 0;
}

static void
demo_main(void* arg, int argc, char** argv)
{
	(void)arg; (void)argc; (void)argv;
	logger_set_enable(&runtime()->logger, false);
	BufMgr buf_mgr;
	buf_mgr_init(&buf_mgr);
	Task task;
	task_init(&task);
	if (task_create_nothrow(&task, "demo", demo_task, NULL, am_runtime, NULL, NULL, NULL, &buf_mgr) == -1)
		_exit(2);
	task_wait(&task);
	fflush(stdout);
	_exit(demo_rc);
}

int
main(int argc, char* argv[])
{
	Runtime rt;
	runtime_init(&rt);
	runtime_start(&rt, demo_main, NULL, argc, argv);
	_exit(2);
}
