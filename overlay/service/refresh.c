
//
// amelie.
//
// Real-Time SQL OLTP Database.
//
// Copyright (c) 2024 Dmitry Simonenko.
// Copyright (c) 2024 Amelie Labs.
//
// AGPL-3.0 Licensed.
//

#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>
#include <amelie_service.h>

static bool
refresh_begin(Refresh* self, Table* table, uint64_t id, Str* storage)
{
	auto part_mgr = &table->part_mgr;
	self->table = table;

	unused(storage);

	// create shadow heap
	auto heap_shadow = heap_allocate(false);

	// take table exclusive lock (unlock on return)
	auto lock_table = lock(&table->rel, LOCK_EXCLUSIVE);
	defer(unlock, lock_table);

	// find partition by id
	auto origin = part_mgr_find(part_mgr, id);
	if (! origin)
	{
		heap_free(heap_shadow);
		return false;
	}
	self->origin  = origin;
	self->id_part = origin->id;

	// commit pending prepared transactions
	auto consensus = &origin->track.consensus;
	track_sync(&origin->track, consensus);
	assert(! origin->track.prepared.list_count);
	self->origin_lsn = origin->track.lsn;

	// switch partition shadow heap and begin heap snapshot
	assert(! origin->heap_shadow);
	origin->heap_shadow = heap_shadow;
	heap_snapshot(origin->heap, heap_shadow, true);
	return true;
}

static void
refresh_snapshot_job(intptr_t* argv)
{
	auto self   = (Refresh*)argv[0];
	auto origin = self->origin;
	auto heap   = origin->heap;

	// create <id>.partition.incomplete file
	auto id = &self->id_part;
	heap->header->lsn = self->origin_lsn;
	heap_create(heap, &self->file_part, id, STATE_INCOMPLETE);

	auto total = (double)self->file_part.size / 1024 / 1024;
	info("checkpoint: %s/%05" PRIu64 ".partition (%.2f MiB)",
	     id->volume->storage->config->name.pos,
	     id->id,
	     total);
}

static void
refresh_complete_job(intptr_t* argv)
{
	auto self = (Refresh*)argv[0];

	// free shadow heap
	auto origin = self->origin;
	auto shadow = origin->heap_shadow;
	origin->heap_shadow = NULL;
	heap_free(shadow);

	// sync incomplete heap file
	if (opt_int_of(&config()->storage_sync))
		file_sync(&self->file_part);

	file_close(&self->file_part);

	// atomically replace the previous heap file
	id_rename(&self->id_part, STATE_INCOMPLETE, STATE_COMPLETE);
}

static void
refresh_apply(Refresh* self)
{
	auto table  = self->table;
	auto origin = self->origin;

	// case 3: access before apply
	breakpoint(REL_BP_REFRESH_3);

	// take table exclusive lock (unlock on return)
	auto lock_table = lock(&table->rel, LOCK_EXCLUSIVE);
	defer(unlock, lock_table);

	// case 4: access during apply
	breakpoint(REL_BP_REFRESH_4);

	// force commit prepared transactions
	track_sync(&origin->track, &origin->track.consensus);
	assert(! origin->track.prepared.list_count);

	// snapshot complete
	heap_snapshot(origin->heap, NULL, false);

	// apply updates during heap snapshot
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, origin->heap_shadow, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it))
	{
		auto chunk = heap_iterator_at_chunk(&it);
		if (chunk->is_shadow_free)
		{
			// delayed heap removal
			heap_remove(origin->heap, *(void**)chunk->data);
			continue;
		}

		// copy row
		auto row_shadow = heap_iterator_at(&it);
		auto row = row_copy(origin->heap, row_shadow);

		// update indexes using row copy (replace shadow copy)
		auto prev = part_apply(origin, row, false);
		assert(prev == row_shadow);
	}
}

void
refresh_init(Refresh* self, Service* service)
{
	service_lock_init(&self->lock);
	self->origin       = NULL;
	self->origin_lsn   = 0;
	self->service      = service;
	self->table        = NULL;
	file_init(&self->file_part);
}

void
refresh_free(Refresh* self)
{
	unused(self);
}

void
refresh_reset(Refresh* self)
{
	service_lock_init(&self->lock);
	self->origin     = NULL;
	self->origin_lsn = 0;
	self->table      = NULL;
	file_close(&self->file_part);
}

bool
refresh_run(Refresh* self, Table* table, uint64_t id, Str* storage)
{
	refresh_reset(self);

	// lock partition by id
	service_lock(self->service, &self->lock, LOCK_EXCLUSIVE, id);
	defer(service_unlock, &self->lock);

	// case 1: concurrent partition refresh
	breakpoint(REL_BP_REFRESH_1);

	// find and rotate partition
	if (! refresh_begin(self, table, id, storage))
		return false;

	// case 2: update during refresh
	breakpoint(REL_BP_REFRESH_2);

	// create heap snapshot
	auto on_error = error_catch
	(
		// run heap snapshot in background
		run(refresh_snapshot_job, 1, self);

		// apply
		refresh_apply(self);

		// finilize and cleanup
		run(refresh_complete_job, 1, self);
	);

	if (on_error)
		rethrow();

	return true;
}
