
//
// amelie.
//
// Real-Time SQL OLTP Database.
//
// Copyright (c) 2024 Dmitry Simonenko.
// Copyright (c) 2024 Amelie Labs.
//
// AGPL-3.0 Licensed.
//

#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>
#include <amelie_service.h>

void
service_refresh(Service* self, Uuid* id_table, uint64_t id, Str* storage)
{
	// note: executed under shared catalog lock
	auto table = table_mgr_find_by(&self->catalog->table_mgr, id_table, true);
	Refresh refresh;
	refresh_init(&refresh, self);
	defer(refresh_free, &refresh);
	if (! refresh_run(&refresh, table, id, storage))
		error("partition or storage not found");
}

void
service_flush(Service* self, Uuid* id_table, uint64_t id)
{
	unused(self);
	unused(id_table);
	unused(id);
	error("flush is not supported");
}

void
service_checkpoint(Service* self)
{
	// note: executed under shared catalog lock
	auto lsn = state_lsn();

	// update catalog file if there are pending ddls
	if (state_catalog() < state_catalog_pending())
		catalog_write(self->catalog);

	// refresh partitions
	Refresh refresh;
	refresh_init(&refresh, self);
	defer(refresh_free, &refresh);

	list_foreach(&self->catalog->table_mgr.mgr.list)
	{
		auto table = table_of(list_at(Relation, link));
		for (;;)
		{
			uint64_t id = UINT64_MAX;
			auto table_lock = lock(&table->rel, LOCK_SHARED);
			list_foreach(&table->part_mgr.list)
			{
				auto part = list_at(Part, link);
				if (part->heap->header->lsn < lsn && part_has_updates(part))
				{
					id = part->id.id;
					break;
				}
			}
			unlock(table_lock);

			if (id == UINT64_MAX)
				break;

			refresh_run(&refresh, table, id, NULL);
		}
	}

	// wal gc
	service_gc(self);
}

void
service_gc(Service* self)
{
	auto lock_catalog = lock_system(REL_CATALOG, LOCK_SHARED);

	// include catalog lsn if there are any pending catalog
	// operations in the wal
	//
	// since pending catalog sets to max ddl lsn, we are using
	// catalog lsn as min
	//
	auto lsn             = UINT64_MAX;
	auto catalog         = state_catalog();
	auto catalog_pending = state_catalog_pending();
	if (catalog_pending > catalog)
		lsn = catalog;

	// calculate min lsn accross partitions files (merged)
	list_foreach(&self->catalog->table_mgr.mgr.list)
	{
		auto table = table_of(list_at(Relation, link));
		auto table_lock = lock(&table->rel, LOCK_SHARED);
		list_foreach(&table->part_mgr.list)
		{
			auto part = list_at(Part, link);
			// include partition only if it has pending updates
			if (! part_has_updates(part))
				continue;
			auto part_lsn = part->heap->header->lsn;
			if (part_lsn < lsn)
				lsn = part_lsn;
		}
		unlock(table_lock);
	}

	unlock(lock_catalog);

	// remove wal files < lsn
	wal_gc(&self->wal_mgr->wal, lsn);
}

void
service_create_index(Service* self, Tr* tr, uint8_t* op, int flags)
{
	// note: no catalog lock
	auto if_not_exists = ddl_if_not_exists(flags);

	Str  name_db;
	Str  name;
	auto pos = table_op_index_create_read(op, &name_db, &name);

	// take shared catalog lock
	auto lock_catalog = lock_system(REL_CATALOG, LOCK_SHARED);
	defer(unlock, lock_catalog);

	// find table
	auto table = table_mgr_find(&self->catalog->table_mgr, &name_db, &name, false);
	if (! table)
		error("table '%.*s': not exists", str_size(&name),
		      str_of(&name));

	auto config = index_config_read(table_columns(table), &pos);
	errdefer(index_config_free, config);
	keys_set_primary(&config->keys, false);

	// find index
	auto index = table_index_find(table, &config->name, false);
	if (index)
	{
		if (! if_not_exists)
			error("table '%.*s' index '%.*s': already exists",
			      str_size(&table->config->name),
			      str_of(&table->config->name),
			      str_size(&config->name),
			      str_of(&config->name));

		index_config_free(config);
		return;
	}

	// incrementally create indexes on every table partition
	Indexate ix;
	indexate_init(&ix, self);
	while (indexate_next(&ix, table, config));

	unlock(lock_catalog);

	// take exclusive catalog lock (HELD till completion)
	lock_catalog = lock_system(REL_CATALOG, LOCK_EXCLUSIVE);

	// attach index to the table
	table_index_add(table, tr, config);
	log_persist_relation(&tr->log, op);
}
