#pragma once

typedef struct Refresh Refresh;

struct Refresh
{
	ServiceLock lock;
	Part*       origin;
	uint64_t    origin_lsn;
	Id          id_part;
	File        file_part;
	Service*    service;
	Table*      table;
};

void refresh_init(Refresh*, Service*);
void refresh_free(Refresh*);
void refresh_reset(Refresh*);
bool refresh_run(Refresh*, Table*, uint64_t, Str*);
