// boots the amelie runtime and runs the harness inside a task
#include <amelie_test_scope>
#include "pbt.h"
#include "pbt_main.h"

static int result = 2;

static void
boot_task(void* arg)
{
	unused(arg);
	auto on_error = error_catch (
		if (pbt_harness.setup)
			pbt_harness.setup();
	);
	if (on_error)
		pbt_fail("unexpected error in setup: %.*s", (int)buf_size(&am_self()->error.text),
		         buf_cstr(&am_self()->error.text));
	while (pbt_main_next())
	{
		on_error = error_catch (
			pbt_harness.run();
		);
		if (on_error)
			pbt_fail("unexpected error: %.*s", (int)buf_size(&am_self()->error.text),
			         buf_cstr(&am_self()->error.text));
		palloc_reset();
	}
	result = 0;
}

static void
boot_main(void* arg, int argc, char** argv)
{
	unused(arg);
	unused(argc);
	unused(argv);
	logger_set_enable(&runtime()->logger, false);

	BufMgr buf_mgr;
	buf_mgr_init(&buf_mgr);
	defer(buf_mgr_free, &buf_mgr);

	Task task;
	task_init(&task);
	defer(task_free, &task);
	int rc;
	rc = task_create_nothrow(&task, "pbt", boot_task, NULL, am_runtime, NULL, NULL, NULL, &buf_mgr);
	if (rc == -1)
		error("task create error");
	task_wait(&task);
}

int
main(int argc, char* argv[])
{
	if (pbt_main_args(argc, argv) == -1)
		return 3;
	if (pbt_harness.no_runtime)
	{
		while (pbt_main_next())
			pbt_harness.run();
		_exit(pbt_main_finish(0));
	}
	Runtime rt;
	runtime_init(&rt);
	runtime_start(&rt, boot_main, NULL, 0, NULL);
	runtime_stop(&rt);
	runtime_free(&rt);
	pbt_main_finish(result);
	fflush(NULL);
	_exit(result);
}
