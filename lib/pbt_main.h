#pragma once
int  pbt_main_args(int argc, char** argv);
bool pbt_main_next(void);
int  pbt_main_finish(int rc);
