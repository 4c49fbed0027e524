# (property, file under amelie/, old text, new text)
M = [
("C06","db/index/tree.c","int size = ref->keys_count - page_pos;","int size = ref->keys_count - page_pos - (ref != page && page_pos == 0 ? 1 : 0);"),
("C06","db/index/tree.c","	if (*page_rel == 1)","	if (*page_rel > 1)"),
("C06","db/index/tree_iterator.h","assert(! self->repositioned);\n	self->repositioned = true;","self->repositioned = pos.page != NULL;"),
("C06","db/index/tree_iterator.h","	if (likely((self->page_pos + 1) < self->page->keys_count))","	if (likely((self->page_pos + 1) <= self->page->keys_count))"),
("C06","db/index/index_tree_merge.h","		case 1:\n","		case 2:\n"),
("C06","runtime/lib/uuid.h","	return compare_uint64(a->b, b->b);","	return compare_int64(a->b, b->b);"),
("C06","db/row/compare.h","		if (rc != 0)\n			return rc;","		if (rc != 0 || column->type_size == sizeof(Uuid))\n			return rc;"),
("C06","db/index/tree.c","	// not the last position\n	int size = page->keys_count - pos->page_pos;","	int size = page->keys_count - pos->page_pos - (page->keys_count > 300);"),
("C07","db/index/hash.h","prev->rows[self->rehashing_pos] = HT_DELETED;","prev->rows[self->rehashing_pos] = NULL;"),
("C07","db/index/hash.h","				self->prev->rows[prev_pos] = HT_DELETED;\n","				self->prev->rows[prev_pos] = NULL;\n"),
("C07","db/index/hash.h","		if (! prev)\n			prev = hash_store_delete(self->prev, key);\n		hash_rehash(self);\n	} else {","		hash_rehash(self);\n	} else {"),
("C07","db/index/hash_iterator.h","	if (self->current_store == hash->prev)\n		return;","	if (self->current_store == hash->prev || hash->prev->count == 1)\n		return;"),
("C07","db/index/hash_store.h","			deleted = true;","			deleted = false;"),
("C07","db/index/index_hash_merge.h",">= self->list_count",">= self->list_count - 1"),
("C07","db/index/hash_iterator.h","		if (! self->current)\n		{\n			self->pos           = 0;","		if (! self->current)\n		{"),
("C07","db/index/hash.h","			prev = hash_store_delete(self->prev, key);\n		hash_rehash(self);\n	} else\n","			;\n		hash_rehash(self);\n	} else\n"),
("C09","db/part/part_op.c","	if (ref->row_prev)\n		index_replace_by(index, ref->row_prev);\n	else","	if (ref->row_prev && op->cmd != CMD_DELETE)\n		index_replace_by(index, ref->row_prev);\n	else"),
("C09","db/part/part_op.c","	if (op->cmd != CMD_DELETE && row)","	if (op->cmd != CMD_DELETE && row && !log_row_of(self, op)->row_prev)"),
("C09","db/part/part_op.c","		op->row_prev = index_replace(index, row, index_it);","		index_replace(index, row, index_it);"),
("C09","db/part/part_op.c","	for (auto index = primary->next; index; index = index->next)\n	{\n		// add log record (not persisted)\n		op = log_row(&tr->log, CMD_DELETE","	for (auto index = primary->next; index && index->next; index = index->next)\n	{\n		// add log record (not persisted)\n		op = log_row(&tr->log, CMD_DELETE"),
("C09","db/transaction/commit.c","for (int pos = self->log.count - 1; pos >= 0; pos--)","for (int pos = 0; pos < self->log.count; pos++)"),
("C09","db/transaction/commit.c","	list_foreach_reverse_safe(&self->list)","	list_foreach_safe(&self->list)"),
("C09","db/part/part_op.c","	// sync last identity column value during recover\n	if (replace)","	if (0)"),
("C09","db/transaction/write_log.h","		if (hdr->cmd != cmd || !uuid_is(&hdr->id, id))","		if (!uuid_is(&hdr->id, id))"),
("C09","db/transaction/tr_cache.h","	tr_reset(tr);","	tr->active = false;"),
("C09","db/transaction/log.h","	buf_reset(&self->data);","	;"),
("C09","db/part/part_op.c","		if (delete)\n			index_delete_by(index, row);\n		else\n			index_replace_by(index, row);","		if (delete)\n			index_delete_by(index, row);\n		else if (! prev)\n			index_replace_by(index, row);"),
("C09","db/heap/heap.c","	chunk->is_shadow      = self->shadow != NULL;","	chunk->is_shadow      = self->shadow != NULL && size < 200;"),
("C09","db/transaction/track.h","		consensus_pod->commit = id;","		consensus_pod->commit = id + 1;"),
("C05","db/heap/heap.c","		chunk->bucket_left  = heap->last->bucket;\n		heap->last->is_last = false;","		chunk->bucket_left  = heap->last->bucket;\n		if (heap == self) heap->last->is_last = false;"),
("C05","db/heap/heap.c","		bucket->list_offset = chunk->prev_offset;","		bucket->list_offset = bucket->list_count > 2 ? chunk->prev_offset : chunk->prev_offset;bucket->list_count -= (chunk->prev > 3);"),
("C05","db/heap/heap.c","	bucket->list        = heap_page_of(chunk)->order;","	bucket->list        = heap_page_of(chunk)->order & 7;"),
("C05","db/heap/heap_iterator.h","	self->current = (HeapChunk*)(self->page->pointer + sizeof(PageHeader));","	self->current = (HeapChunk*)(self->page->pointer + sizeof(PageHeader)); if (self->current->is_free) self->current = NULL;"),
("C04","db/heap/heap_file.c","opt_int_of(&config()->storage_crc)","!opt_int_of(&config()->storage_crc)"),
("C01","db/wal/wal_cursor.c","		if (file_update_size(&file->file))\n			continue;\n\n		// close previous file","		// close previous file"),
("C01","db/wal/wal_worker.c","				events &= ~(WAL_CREATE | WAL_SYNC_CREATE);","				continue;"),
("C01","db/wal/wal.c","	mutex_lock(&self->lock);\n	uint64_t lsn = 1;\n	if (self->current)\n		lsn = state_lsn() + 1;","	uint64_t lsn = 1;\n	if (self->current)\n		lsn = state_lsn() + 1;\n	mutex_lock(&self->lock);"),
("C01","db/wal/wal.c","		if (opt_int_of(&config()->wal_sync_on_close))\n			wal_file_sync(file_prev);","		;"),
("C01","db/wal/wal.c","	if (end != self->current->file.size)","	if (0)"),
("C01","db/wal/wal.c","		if (opt_int_of(&config()->wal_sync_on_write))\n			wal_file_sync(current);","		if (0)\n			wal_file_sync(current);"),
("C01","db/wal/wal_file.h","wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)","wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)"),
("C01","db/wal/wal_file.h","	if (unlikely(size < size_header +","	if (0 && unlikely(size < size_header +"),
("C01","db/wal/wal.c","		if (record->lsn > lsn)\n			break;\n		offset += record->size;\n		if (record->lsn == lsn)","		offset += record->size;\n		if (record->lsn >= lsn)"),
("C01","db/wal/wal.c","		if (error_catch(wal_file_truncate(current, current_offset)))\n			panic(","		if (0)\n			panic("),
("C01","db/wal/wal_cursor.c","		if (record->lsn >= lsn)","		if (record->lsn > lsn)"),
("C01","db/wal/wal_cursor.c","		if (record->lsn == lsn_max)","		if (record->lsn + 1 == lsn_max)"),
("C01","db/wal/wal_cursor.c","		if (file_update_size(&file->file))\n			continue;\n\n		if (! self->file_next)","		if (! self->file_next)"),
("C01","db/transaction/write.h","	header->ops   += write_log->iov.iov_count;","	header->ops   += write_log->iov.iov_count > 1000 ? 1000 : write_log->iov.iov_count;"),
("C01","db/transaction/write_log.h","		if (hdr->cmd != cmd || !uuid_is(&hdr->id, id))","		if (hdr->cmd != cmd)"),
("C01","db/transaction/record.h","	return crc == self->crc;\n}\n\nstatic inline bool\nrecord_validate_cmd","	return crc == self->crc || size == 0;\n}\n\nstatic inline bool\nrecord_validate_cmd"),
("C01","runtime/os/vfs.c","			r -= v->iov_len;\n			v++;\n			n--;\n		}\n	} while (n > 0);\n\n	return size;\n}\n\nint64_t\nvfs_pwritev","			r -= v->iov_len;\n			v++;\n			n--;\n		}\n		size = size;\n	} while (0);\n\n	return size;\n}\n\nint64_t\nvfs_pwritev"),
("C01","runtime/os/file.h","		iov += n;\n		self->size += rc;","		iov += n;\n		self->size = rc + self->size * (count_left == 0);"),
("C01","db/wal/wal_mgr.c","		if (opt_int_of(&config()->wal_sync_on_create))\n			wal_sync(&self->wal, true);","		;"),
("C01","db/wal/wal_mgr.c","		error_catch( wal_mgr_create(self) );","		wal_mgr_create(self);"),
("C02","db/wal/wal.c","		if (lsn < *min)","		if (lsn && lsn < *min)"),
("C02","db/wal/wal.c","		if (lsn < *min)\n			*min = lsn;","		if (lsn < *min)\n			*min = lsn + 1;"),
("C02","runtime/lib/id_mgr.h","		if (id >= list[i + 1])","		if (id + 1 >= list[i + 1])"),
("C02","runtime/lib/id_mgr.h","	for (; i < self->list_count - 1; i++)\n	{\n		// [i]","	for (; i < self->list_count; i++)\n	{\n		// [i]"),
("C02","runtime/lib/id_mgr.h","	self->list_count -= i;","	self->list_count--;"),
("C02","db/wal/wal.c","	list_unlink(&slot->link);\n	self->slots_count--;","	list_unlink(&slot->link);"),
("C02","db/wal/wal_slot.h","	if (lsn > atomic_u64_of(&self->lsn))","	if (lsn > atomic_u64_of(&self->lsn) + 1)"),
("C02","db/wal/wal.c","		wal_slot_signal(slot, list->lsn);","		{ wal_slot_signal(slot, list->lsn); break; }"),
("C02","db/wal/wal.c","	wal_slot_set(slot, 0);","	wal_slot_set(slot, state_lsn());"),
("C02","db/wal/wal.c","	wal_slots(self, &min);\n","	if (self->slots_count > 1) wal_slots(self, &min);\n"),
]
M += [
("C10","db/row/row.h","	if (size > UINT8_MAX)","	if (size > UINT8_MAX + 1)"),
("C10","db/row/row.h","		if (size > UINT16_MAX)","		if (size >= UINT16_MAX)"),
("C10","db/row/row.h","		if (column->type_size > 0) {\n			hash = hash_murmur3_32(pos, column->type_size, hash);","		if (column->type_size > 0) {\n			hash = hash_murmur3_32(pos, column->type_size > 8 ? 8 : column->type_size, hash);"),
("C10","runtime/lib/hash.h","	for (size_t i = len & 3; i; i--)","	for (size_t i = len & 3; i > 1; i--)"),
("C10","db/row/row.h","	if (unlikely(column >= self->columns))","	if (unlikely(column > self->columns))"),
("C11","db/part/part_mgr_recover.c","			range_step = range_max - range_start;\n		else","			range_step = range_interval;\n		else"),
("C11","db/part/part_mapping.h","	for (; min < max; min++)\n		self->map[min] = NULL;","	for (; min <= max && min < PART_MAPPING_MAX; min++)\n		self->map[min] = NULL;"),
("C11","db/part/part_mapping.h","row_hash(key, self->keys) % PART_MAPPING_MAX","(key->size_factor ? row_hash(key, self->keys) + 1 : row_hash(key, self->keys)) % PART_MAPPING_MAX"),
("C11","db/part/part_mgr_recover.c","count > PART_MAPPING_MAX","count > PART_MAPPING_MAX + 1"),
("C11","db/part/part_mgr_recover.c","		part->heap->header->hash_max = range_start + range_step;","		part->heap->header->hash_max = range_start + range_step - (range_step > 1 && count > 60);"),
]
M += [
("C20","runtime/base/buf.h","	int size_actual = buf_size(self) + size;","	int size_actual = size;"),
("C20","runtime/base/buf.h","	auto size = vsnprintf(NULL, 0, fmt, args) + 1;\n	buf_reserve(self, size);","	auto size = vsnprintf(NULL, 0, fmt, args) + 1;\n	buf_reserve(self, size - 1);"),
("C20","runtime/base/arena.h","		page->used = 0;\n",""),
("C20","runtime/base/arena.h","	page->used += size;","	page->used += size & ~3;"),
("C20","runtime/lib/rbtree.c","RBTREE_BLACK 0","RBTREE_BLACK 1"),
("C20","runtime/lib/id_mgr.h","		if (list[i] > limit)\n			break;","		if (list[i] >= limit)\n			break;"),
("C20","runtime/lib/id_mgr.h","	for (; i < self->list_count && list[i] < id; i++);","	for (; i < self->list_count - 1 && list[i] < id; i++);"),
("C20","runtime/lib/hash_table.h","		hashtable_set(self, next);\n		pos = (pos + 1) % self->size;","		hashtable_set(self, next);\n		break;"),
("C20","runtime/base/str.h","	return (a_size > b_size) - (a_size < b_size);","	return a_size > b_size;"),
("C20","runtime/base/overflow.h","	return int64_add_overflow(result, *result, add);","	*result += add; return false;"),
("C20","runtime/base/ring.h","self->ring[pos_read & (self->ring_size - 1)]","self->ring[pos_read % (self->ring_size | 1)]"),
("C20","runtime/base/list.h","	link->next = self->next;\n	link->prev = self;\n	link->prev->next = link;\n	link->next->prev = link;","	link->next = self->next;\n	link->prev = self;\n	link->prev->next = link;\n	link->next->prev = self;"),
("C20","runtime/lib/vector.c","	double Sc = ab / sqrt(a2 * b2);","	double Sc = ab / sqrt(a2) * sqrt(b2);"),
("C20","runtime/base/str.h","	while ((self->end - 1) > self->pos && isspace(*(self->end - 1)))","	while ((self->end - 2) > self->pos && isspace(*(self->end - 1)))"),
("C20","runtime/base/buf_cache.h","unlikely(buf_capacity(buf) >= self->limit_buf)","0"),
("C20","runtime/base/runtime.h","		if (atomic_u32_dec(&self->refs) == 0)","		if (atomic_u32_dec(&self->refs) <= 1)"),
("C24","runtime/lib/codec_compression.c","	ZSTD_CCtx_reset(self->ctx, ZSTD_reset_session_only);","	;"),
("C24","runtime/lib/codec_compression.c","	while (input.pos < input.size)","	if (input.pos < input.size)"),
("C24","runtime/lib/codec_compression.c","	if (unlikely(rc != (size_t)dst_size))","	if (unlikely(rc > (size_t)dst_size))"),
("C24","db/storage/encoder.h","		crc = runtime()->crc(crc, iov[i].iov_base, iov[i].iov_len);","		crc ^= runtime()->crc(0, iov[i].iov_base, iov[i].iov_len);"),
("C24","db/storage/encoder.h","		if (self->compression->iface->id == id)\n			return;","		if (self->compression)\n			return;"),
("C24","db/storage/encoder.h","	buf_reset(&self->compression_buf);\n}","}"),
("C24","runtime/lib/codec_cache.h","				list_unlink(&ref->link);","				;"),
("C25","runtime/lib/separator.h","		if (*self->pos == '\\\\')\n			slash = !slash;","		if (*self->pos == '\\\\')\n			slash = true;"),
("C25","runtime/lib/separator.h","			if (in_case) {\n				in_case--;","			if (in_case) {\n				in_case = 0;"),
("C25","runtime/lib/separator.h","	if (!isspace(self->pos[size]) && self->pos[size] != ';')","	if (!isspace(self->pos[size]))"),
("C25","runtime/lib/separator.h","				if (separator_match(self, \"not\", 3))\n					continue;",""),
("C25","runtime/lib/separator.h","		memmove(start, self->pos, size_left);\n		buf_truncate(&self->buf, size);","		memmove(start, self->pos, size_left);\n		buf_truncate(&self->buf, size - (size_left > 40));"),
("C25","runtime/lib/load.c","			memmove(readahead->start, in.pos, left);\n			readahead->position = readahead->start + left;\n		}\n		self->offset = 0;","			memmove(readahead->start, in.pos, left);\n			readahead->position = readahead->start + left;\n			self->offset = 0;\n		}"),
("C25","runtime/lib/load.c","			self->offset += buf_size(readahead);\n			break;","			break;"),
("C25","runtime/lib/load.c","			if (buf_size(buf) >= self->limit_size)","			if (buf_size(buf) > self->limit_size)"),
]
M += [
("C32","server/auth/auth.c","auth_cache_find(&self->cache, token)","auth_cache_find(&self->cache, &jwt->payload)"),
("C32","server/auth/auth.c","auth_cache_find(&self->cache, token);","auth_cache_find(&self->cache, &jwt->digest);\n	token = &jwt->digest;"),
("C32","server/auth/auth.c","now < user_ref->expire","now <= user_ref->expire"),
("C32","server/auth/auth.c","if (now >= exp)","if (now > exp)"),
("C32","server/auth/auth.c","!iat || !exp || iat > exp","!exp || iat > exp"),
("C32","server/auth/auth.c","!iat || !exp || iat > exp","!iat || !exp || iat >= exp"),
("C32","server/auth/auth.c","	auth_cache_reset(&self->cache);\n",""),
("C32","server/auth/auth.c","		if (likely(now < user_ref->expire))\n","		if (likely(now < user_ref->expire || user_ref->expire < 0))\n			return user;\n		if (0)\n"),
("C32","server/auth/auth_cache.c","	return str_compare(&at->digest, ptr);","	return at->node.hash;"),
("C32","server/auth/auth_cache.c","	node->expire = expire;","	node->expire = expire + 1;"),
("C32","server/auth/auth_cache.c","	auth_cache_node_free(node);\n}\n\nhot","	node->expire = INT64_MAX;\n}\n\nhot"),
("C32","server/auth/jwt_decode.c","if (unlikely(buf_size(&self->data) != 32))","if (unlikely(buf_size(&self->data) > 32))"),
("C32","server/auth/jwt_decode.c","memcmp(self->data.start, digest, 32)","memcmp(self->data.start, digest, 16)"),
("C32","server/auth/jwt_decode.c","strncmp","strncmp"),
("C32","server/auth/jwt_decode.c","(digest->pos - start) - 1","str_size(&self->header)"),
("C32","server/auth/jwt_decode.c","	if (unlikely(! str_is_case(&alg, \"HS256\", 5)))","	if (unlikely(! str_is_case(&alg, \"HS256\", 5) && str_size(&alg) == 5))"),
("C32","server/auth/jwt_decode.c","	if (unlikely(! str_is_prefix(digest, \"Bearer \", 7)))\n		goto error_jwt;",""),
("C32","server/auth/jwt_decode.c","		{ DECODE_INT,         \"iat\", iat  },","		{ DECODE_INT | DECODE_FOUND,         \"iat\", iat  },"),
("C32","server/auth/jwt_decode.c","	buf_reset(&self->data);\n	base64url_decode(&self->data, &self->digest);","	base64url_decode(&self->data, &self->digest);"),
("C32","server/auth/jwt_decode.c","	json_reset(&self->json);\n	json_parse(&self->json, &text, NULL);","	json_parse(&self->json, &text, NULL);"),
("C32","server/user/user_cache.h","			user_config_sync(user->config, user_with->config);","			;"),
("C32","server/user/user_cache.h","		if (! user_with)\n","		if (! user_with && 0)\n"),
("C32","server/user/user_config.h","if (! str_compare(&self->secret, &with->secret))","if (str_size(&self->secret) != str_size(&with->secret))"),
("C33","server/user/user_config.h","if (! str_compare(&self->secret, &with->secret))","if (str_size(&self->secret) != str_size(&with->secret))"),
("C33","server/user/user_mgr.c","	user_cache_delete(&self->cache, user);\n	user_mgr_save(self);","	user_mgr_save(self);\n	user_cache_delete(&self->cache, user);"),
("C33","server/user/user_mgr.c","	user_cache_add(&self->cache, user);\n	user_mgr_save(self);","	user_mgr_save(self);\n	user_cache_add(&self->cache, user);"),
("C33","server/user/user_mgr.c","	user_config_set_secret(user->config, &config->secret);\n	user_mgr_save(self);","	user_config_set_secret(user->config, &config->secret);"),
("C33","server/user/user_mgr.c","		if (! if_not_exists)\n","		if (if_not_exists)\n"),
("C33","server/user/user_cache.h","user_config_write(user->config, buf, FSECRETS);","user_config_write(user->config, buf, 0);"),
("C33","server/user/user_cache.h","			user_config_write(user->config, buf, flags);\n	} else","			user_config_write(user->config, buf, FSECRETS);\n	} else"),
("C33","server/user/user_config.h","	str_copy(&self->name, name);","	str_dup(&self->name, str_of(name), strnlen(str_of(name), 4));"),
("C33","runtime/runtime/state.c","	sfmt(path_new, sizeof(path_new), \"%s.incomplete\", path);","	sfmt(path_new, sizeof(path_new), \"%s\", path);"),
("C33","runtime/runtime/state.c","O_CREAT|O_RDWR|O_TRUNC","O_CREAT|O_RDWR"),
("C33","runtime/runtime/state.c","{ \"users\",           OPT_JSON,   OPT_C,","{ \"users\",           OPT_JSON,   OPT_E,"),
]
M += [
("C30","server/http/http.c","if (unlikely((end + 4) - start > 512))","if (0)"),
("C30","server/http/http.c","	while (pos < end && *pos != ' ' && *pos != '\\r')\n		pos++;\n	if (unlikely(pos == end || *pos != ' '))\n		goto error;\n	str_set_u8(a,","	while (pos < end && *pos != ' ')\n		pos++;\n	if (unlikely(pos == end))\n		goto error;\n	str_set_u8(a,"),
("C30","server/http/http.c","		while (pos < end && *pos != ':' && *pos != '\\r')","		while (pos < end && *pos != ':')"),
("C30","server/http/http.c","	if (unlikely((uint64_t)len >= limit))","	if (unlikely((uint64_t)len > limit))"),
("C30","server/http/http.c","		self->raw.position = end + 4;","		self->raw.position = end + 4 - (buf_size(&self->raw) == 256);"),
("C30","server/http/http.c","		if (left < to_read)\n			to_read = left;",""),
("C30","server/http/http.c","	for (int i = 0; i < HTTP_MAX; i++)\n		str_init(&self->options[i]);\n	buf_reset(&self->headers);","	for (int i = 0; i < HTTP_MAX; i++)\n		str_init(&self->options[i]);"),
("C30","server/http/http.c","uint8_t* end = memmem(start, buf_size(&self->raw), \"\\r\\n\\r\\n\", 4);","uint8_t* end = memmem(self->raw.position - size, size, \"\\r\\n\\r\\n\", 4);"),
("C30","server/http/http.c","			if (unlikely(! buf_empty(&self->raw)))\n				error(\"http: unexpected eof\");",""),
("C30","server/http/http.c","		if (unlikely(size == 0))\n			error(\"http: unexpected eof\");","		if (unlikely(size == 0))\n			break;"),
("C30","server/http/http.c","	if (size > 0)\n	{\n		buf_write(buf, \"Content-Length: \", 16);\n		buf_printf(buf, \"%\" PRIu64, size);","	if (size > 0)\n	{\n		buf_write(buf, \"Content-Length: \", 16);\n		buf_printf(buf, \"%\" PRIu64, size & 0x7fff);"),
("C30","runtime/base/str.h","return str_size(self) == size && !strncasecmp(self->pos, string, size);","return str_size(self) >= size && !strncasecmp(self->pos, string, size);"),
("C30","runtime/os/readahead.h","	self->offset -= size;","	self->offset -= size - (size > 255);"),
("C30","runtime/os/readahead.h","			if (left < size)\n				size = left;","			if (left < size && left > 1)\n				size = left;"),
("C30","runtime/os/readahead.h","		self->offset = 0;\n		buf_reset(&self->buf);\n		int rc","		buf_reset(&self->buf);\n		int rc"),
("C30","runtime/os/tcp.c","			rc -= iov->iov_len;\n			iov++;","			rc -= iov->iov_len;\n			if (rc == 0 && iov_count > 1) { iov_count--; iov++; break; }\n			iov++;"),
("C30","runtime/os/tcp.c","				iov->iov_len -= rc;\n","				iov->iov_len -= rc;\n				if (rc == 1) iov->iov_len++;\n"),
("C30","runtime/os/tcp.c","if (! (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR))\n					error_system();\n			}\n		}\n\n		// retry","if (! (errno == EAGAIN || errno == EWOULDBLOCK))\n					error_system();\n			}\n		}\n\n		// retry"),
("C31","server/http/uri.c","buf_write_str(buf, &self->secret.string);","buf_write_str(buf, &self->user.string);"),
("C31","server/http/uri.c","if (!opt || opt == &self->endpoint->uri)","if (!opt)"),
("C31","server/http/uri.c","strpbrk(self->pos, \"@/?\")","strpbrk(self->pos, \"@\")"),
("C31","server/http/uri.c","if (start == self->pos || port > UINT16_MAX)","if (start == self->pos)"),
("C31","server/http/uri.c","			to_write = (a << 4) | b;","			to_write = (a << 4) + (b | (a & 8));"),
("C31","server/http/uri.c","		value = digit - 'a' + 10;","		value = digit - 'a' + 9;"),
("C31","server/http/uri.c","			if ((data_size - i) < 3)","			if ((data_size - i) < 2)"),
("C31","server/http/uri.c","		buf_reset(buf);\n\n		// name =","		// name ="),
("C31","server/http/uri.c","	if (!*self->pos || *self->pos == '?')\n		return;\n\n	// db/\n","	if (!*self->pos)\n		return;\n\n	// db/\n"),
("C31","server/http/uri.c","	while (*self->pos && *self->pos != '/' && *self->pos != '?')","	while (*self->pos && *self->pos != '/' && *self->pos != '?' && *self->pos != ':')"),
("C31","server/http/uri.c","			if (ipv6)\n				buf_write(buf, \"[\", 1);",""),
("C31","server/http/uri.c","	uri_export_arg(&self->timezone, buf, &first);\n	uri_export_arg(&self->format, buf, &first);","	first = true;\n	uri_export_arg(&self->timezone, buf, &first);\n	uri_export_arg(&self->format, buf, &first);"),
("C31","server/http/endpoint.c","	self->port.integer = 3485;\n",""),
("C31","server/http/endpoint.c","		if (opt->type == OPT_STRING || opt->type == OPT_JSON)","		if (opt->type == OPT_STRING && opt != &self->timezone)"),
("C31","runtime/runtime/opts.c","			opt_string_set(opt, &opt_from->string);","			if (! str_empty(&opt_from->string)) opt_string_set(opt, &opt_from->string);"),
("C31","server/http/uri.c","			if (str_is_case(&value, \"true\", 4))","			if (str_is(&value, \"true\", 4))"),
]
M += [
("C23","runtime/base/bus.h","	ring_write(&self->ring, ipc);\n\n	if (atomic_u32_of(&self->sleep))\n		notify_signal(&self->notify);","	auto sleep = atomic_u32_of(&self->sleep);\n	ring_write(&self->ring, ipc);\n\n	if (sleep)\n		notify_signal(&self->notify);"),
("C23","runtime/base/task.c","		bus_set_sleep(bus, true);\n		if (bus_pending(bus) > 0)\n		{\n			bus_set_sleep(bus, false);\n			continue;\n		}","		bus_set_sleep(bus, true);"),
("C23","runtime/base/task.c","		bus_set_sleep(bus, true);\n		if (bus_pending(bus) > 0)\n		{\n			bus_set_sleep(bus, false);\n			continue;\n		}","		if (bus_pending(bus) > 0)\n			continue;\n		bus_set_sleep(bus, true);"),
("C23","runtime/base/notify.c","	uint64_t id;\n	read(fd->fd, &id, sizeof(id));\n	__sync_lock_release(&self->signaled);","	uint64_t id;\n	__sync_lock_release(&self->signaled);\n	read(fd->fd, &id, sizeof(id));"),
("C23","runtime/base/ring.h","	while (atomic_load_explicit(&self->pos_write, memory_order_relaxed) != slot) {\n		__asm__(\"pause\");\n	}\n",""),
("C23","runtime/base/ring.h","	while (slot >= atomic_load_explicit(&self->pos_read, memory_order_acquire) + self->ring_size) {","	while (slot > atomic_load_explicit(&self->pos_read, memory_order_acquire) + self->ring_size) {"),
("C23","runtime/base/ring.h","	auto data = self->ring[pos_read & (self->ring_size - 1)];\n","	").__class__(("C23","runtime/base/ring.h","	// make the slot available for producers.\n	//\n	// The release semantics ensures that producers see the updated read cursor.\n	atomic_store_explicit(&self->pos_read, pos_read + 1, memory_order_release);\n	return data;","	atomic_store_explicit(&self->pos_read, pos_read + 1, memory_order_release);\n	return self->ring[pos_read & (self->ring_size - 1)];")),
("C23","runtime/base/ipc.h","	return atomic_u32_inc(&self->refs) == 0;","	if (self->refs > 0)\n		return false;\n	self->refs = 1;\n	return true;"),
("C23","runtime/base/bus.h","		event_signal_local(event);\n		ipc_unref(ipc);","		ipc_unref(ipc);\n		if (event->wait || ipc->id == IPC_EVENT)\n			event_signal_local(event);\n		else\n			event->signal = true;"),
("C23","runtime/lib/job_mgr.c","		if (self->jobs_count > 0)\n		{","		if (unlikely(self->shutdown))\n			break;\n		if (self->jobs_count > 0)\n		{"),
("C23","runtime/lib/job_mgr.c","	cond_var_signal(&self->cond_var);\n	mutex_unlock(&self->lock);\n}\n\nJob*","	if (self->jobs_count == 1)\n		cond_var_signal(&self->cond_var);\n	mutex_unlock(&self->lock);\n}\n\nJob*"),
("C23","runtime/lib/job_mgr.c","	cond_var_broadcast(&self->cond_var);","	cond_var_signal(&self->cond_var);"),
("C23","runtime/lib/job_mgr.c","	mutex_lock(&self->lock);\n	list_append(&self->jobs, &job->link);\n	self->jobs_count++;\n	cond_var_signal(&self->cond_var);\n	mutex_unlock(&self->lock);","	mutex_lock(&self->lock);\n	list_append(&self->jobs, &job->link);\n	mutex_unlock(&self->lock);\n	self->jobs_count++;\n	cond_var_signal(&self->cond_var);"),
("C23","runtime/lib/job.h","	if (error_catch( self->main(self->main_argv) ))\n		error_copy(self->error, &am_self()->error);\n	event_signal(&self->on_complete);","	auto on_error = error_catch( self->main(self->main_argv) );\n	event_signal(&self->on_complete);\n	if (on_error)\n		error_copy(self->error, &am_self()->error);"),
("C23","runtime/base/rpc.h","	if (error_catch( main(self, main_arg) ))\n		error_copy(&self->error, &am_self()->error);\n	rpc_signal(self);","	if (error_catch( main(self, main_arg) ))\n		self->error = am_self()->error;\n	rpc_signal(self);"),
("C23","runtime/base/mailbox.h","	while (list_empty(&self->list))\n		wait_event(&self->event, coro);","	if (list_empty(&self->list))\n		wait_event(&self->event, coro);"),
("C23","runtime/base/mailbox.h","	if (list_empty(&self->list))\n		return NULL;\n	auto first = list_pop(&self->list);","	if (list_empty(&self->list))\n		return NULL;\n	auto first = self->list.prev;\n	list_unlink(first);"),
("C23","runtime/base/cond.h","	while (! self->signal)\n		cond_var_wait","	if (! self->status)\n		cond_var_wait"),
("C18","runtime/base/spinlock.h","			if (*self == 0 && __sync_lock_test_and_set(self, 1) == 0)\n				break;\n			if (++count > 300)","			if (*self == 0) {\n				*self = 1;\n				break;\n			}\n			if (++count > 300)"),
("C23","runtime/base/atomic.h","atomic_u32_inc(atomic_u32* self)\n{\n	return __sync_fetch_and_add(self, 1);","atomic_u32_inc(atomic_u32* self)\n{\n	uint32_t value = *self;\n	*self = value + 1;\n	return value;"),
("C23","runtime/base/rpc_set.h","		if (rpc->error.code != ERROR_NONE && !error)","		if (rpc->error.code != ERROR_NONE)"),
("C23","runtime/base/task.c","		if (mgr->current == coro)\n			continue;\n		coroutine_cancel(coro);","		if (mgr->current == coro)\n			continue;\n		coroutine_cancel(coro);\n		if (mgr->count > 4)\n			break;"),
("C23","runtime/base/bus.h","			mailbox_append(&self->mailbox, msg);","			if (list_empty(&self->mailbox.list) || msg->id != MSG_LTR)\n				mailbox_append(&self->mailbox, msg);\n			else\n				list_push(&self->mailbox.list, &msg->link);"),
("C22","runtime/runtime/lock_mgr.h","	while (rel->lock_wait_count > 0)\n	{","	if (rel->lock_wait_count > 0)\n	for (int once = 1; once; once = 0)\n	{"),
("C22","runtime/runtime/lock_mgr.h","	auto pass = !rel->lock_wait_count && lock_resolve(rel, lock->rel_lock);","	auto pass = lock_resolve(rel, lock->rel_lock);"),
("C22","runtime/runtime/lock_mgr.h","		return !set[LOCK_EXCLUSIVE_RO];","		return true;"),
("C22","runtime/runtime/lock_mgr.h","		       !set[LOCK_EXCLUSIVE_RO] &&\n		       !set[LOCK_CALL];","		       !set[LOCK_EXCLUSIVE_RO];"),
("C22","runtime/runtime/lock_mgr.h","		if (lock->rel == rel && lock->rel_lock == rel_lock)","		if (lock->rel == rel)"),
("C22","runtime/runtime/lock_mgr.h","		auto record = access_at_ordered(access, at);\n		lock_mgr_lock","		auto record = access_at(access, at);\n		lock_mgr_lock"),
("C22","runtime/runtime/access.h","			if (record->lock < lock)\n				record->lock = lock;","			record->lock = lock;"),
("C22","runtime/runtime/access.h","	return compare_uint64(a->rel->lock_order, b->rel->lock_order);","	return (int)(a->rel->lock_order - b->rel->lock_order);"),
("C21","runtime/base/timer_mgr.c","		if (timer->timeout > self->time_ms)\n			break;","		if (timer->timeout > self->time_ms + 1)\n			break;"),
("C21","runtime/base/timer_mgr.c","	if (a->timeout == b->timeout)\n		return (a->seq > b->seq) ? 1 : -1;\n","	if (a->timeout == b->timeout)\n		return (a->seq < b->seq) ? 1 : -1;\n"),
("C21","runtime/base/timer_mgr.c","	qsort(self->timers, count, sizeof(Timer*), timer_mgr_cmp);","	if (count < 2 || timer->timeout < self->timers[count - 2]->timeout)\n		qsort(self->timers, count, sizeof(Timer*), timer_mgr_cmp);").__class__(("C21","runtime/base/timer_mgr.c","	timer->timeout = self->time_ms + timer->interval;","	timer->timeout = (uint32_t)(self->time_ms + timer->interval);")),
("C21","runtime/base/timer_mgr.c","	memmove(self->timers, self->timers + timers_hit, sizeof(Timer*) * timers_left);","	memmove(self->timers, self->timers + timers_hit, sizeof(Timer*) * (timers_left - 1));"),
("C21","runtime/base/coroutine_mgr.h","		coro->cancel_pause_recv = 0;\n		list_init(&coro->link_ready);","		list_init(&coro->link_ready);"),
("C21","runtime/base/coroutine_mgr.h","		coro->cancel            = false;\n",""),
("C21","runtime/base/coroutine.h","	if (self->cancel_pause == 0 &&\n	    self->cancel_pause_recv > 0)","	if (self->cancel_pause == 0 &&\n	    self->cancel_pause_recv == 1)"),
("C21","runtime/base/exception.h","		defer->function(defer->function_arg);\n		defer->function = NULL;","		defer->function(defer->function_arg);"),
("C21","runtime/base/defer.h","	am_self()->exception_mgr.last->defer_stack = self->prev;\n",""),
("C21","runtime/base/runtime.h","		wait_event(self, am_self());\n	cancellation_point();\n	return timedout;","		wait_event(self, am_self());\n	if (timedout)\n		return true;\n	cancellation_point();\n	return timedout;"),
("C21","runtime/base/wait.h","	if (unlikely(timer.active))\n		timer_stop(&timer);\n\n	event->signal = false;\n	return timedout;","	if (unlikely(timer.active))\n		timer_stop(&timer);\n\n	return timedout;"),
("C21","runtime/base/wait.h","	if (event->parent)\n		event_signal_local(event->parent);\n	if (event->wait)","	if (event->wait == NULL && event->parent)\n		event_signal_local(event->parent);\n	if (event->wait)"),
]
M += [
("C18","db/row/sequence.h","	return atomic_u64_inc(&self->value);","	spinlock_lock(&self->lock);\n	auto value = self->value;\n	self->value = value + 1;\n	spinlock_unlock(&self->lock);\n	return value;"),
("C18","db/row/sequence.h","	return atomic_u64_inc(&self->value);","	return self->value++;"),
("C18","db/row/sequence.h","	return atomic_u64_add(&self->value, value);","	self->value += value;\n	return self->value - value;"),
("C18","db/row/sequence.h","	auto next = value + 1;","	auto next = value;"),
("C18","runtime/base/buf_cache.h","	spinlock_lock(&self->lock);\n	Buf* buf = self->cache;\n	if (buf)\n		self->cache = buf->cache_next;\n	spinlock_unlock","	Buf* buf = self->cache;\n	if (! buf)\n		return NULL;\n	spinlock_lock(&self->lock);\n	self->cache = buf->cache_next;\n	spinlock_unlock"),
("C18","runtime/base/buf_cache.h","	spinlock_lock(&self->lock);\n	buf->cache_next = self->cache;\n	self->cache = buf;","	buf->cache_next = self->cache;\n	spinlock_lock(&self->lock);\n	self->cache = buf;"),
("C18","runtime/base/buf_cache.h","	if (unlikely(buf_capacity(buf) >= self->limit_buf))\n	{","	if (unlikely(buf_capacity(buf) >= self->limit_buf))\n	{\n		if (self->cache == NULL)\n			self->cache = buf;"),
("C18","runtime/base/buf_cache.h","		buf_reset(buf);","		if (buf_capacity(buf) < size)\n			buf_reset(buf);"),
("C18","runtime/base/runtime.h","		if (atomic_u32_dec(&self->refs) == 0)\n		{\n			self->refs = 0;","		if (self->refs == 0)\n		{"),
("C18","runtime/base/runtime.h","		if (atomic_u32_dec(&self->refs) == 0)\n		{\n			self->refs = 0;","		if (self->refs-- == 0)\n		{\n			self->refs = 0;"),
("C18","runtime/lib/codec_cache.h","			if (ref->iface->id == id)\n			{\n				list_unlink(&ref->link);\n				codec = ref;\n				break;\n			}\n		}\n	}\n	spinlock_unlock(&self->lock);","			if (ref->iface->id == id)\n			{\n				codec = ref;\n				break;\n			}\n		}\n	}\n	spinlock_unlock(&self->lock);\n	if (codec)\n		list_unlink(&codec->link);"),
("C18","runtime/lib/codec_cache.h","	spinlock_lock(&self->lock);\n	list_append(&self->list, &cp->link);\n	spinlock_unlock(&self->lock);","	list_append(&self->list, &cp->link);"),
("C18","runtime/lib/id_mgr.h","	spinlock_lock(&self->lock);\n	buf_reserve(&self->list, sizeof(id));\n","	buf_reserve(&self->list, sizeof(id));\n	spinlock_lock(&self->lock);\n"),
("C18","runtime/lib/id_mgr.h","	uint64_t id;\n	spinlock_lock(&self->lock);\n	if (likely(self->list_count > 0)) {\n		id = buf_u64(&self->list)[self->list_count - 1];","	uint64_t id;\n	auto count = self->list_count;\n	spinlock_lock(&self->lock);\n	if (likely(count > 0)) {\n		id = buf_u64(&self->list)[count - 1];"),
("C18","server/client/request_queue.h","	spinlock_lock(&self->lock);\n	list_init(&req->link);\n	list_append(&self->list, &req->link);\n	spinlock_unlock(&self->lock);\n	if (signal)","	spinlock_lock(&self->lock);\n	list_init(&req->link);\n	auto empty = list_empty(&self->list);\n	list_append(&self->list, &req->link);\n	spinlock_unlock(&self->lock);\n	if (signal && empty)"),
("C18","server/client/request_queue.h","	Request* req = NULL;\n	spinlock_lock(&self->lock);\n	if (! list_empty(&self->list))\n		req","	Request* req = NULL;\n	if (list_empty(&self->list))\n		return NULL;\n	spinlock_lock(&self->lock);\n	if (! list_empty(&self->list) && self->list.next)\n		req"),
("C18","server/client/request_queue.h","	while ((req = request_queue_peek(self)) == NULL)\n		event_wait(&self->on_write, -1);","	if ((req = request_queue_peek(self)) == NULL)\n	{\n		event_wait(&self->on_write, -1);\n		req = request_queue_peek(self);\n	}"),
("C18","server/client/request.h","	mutex_lock(&self->lock);\n	self->complete = true;\n	self->code     = code;\n","	self->complete = true;\n	mutex_lock(&self->lock);\n	self->code     = code;\n"),
("C18","server/client/request.h","		cond_var_timedwait(&self->cond_var, &self->lock, time_ms);\n		complete = self->complete;","		cond_var_timedwait(&self->cond_var, &self->lock, time_ms);"),
("C18","server/client/request.h","		mutex_lock(&self->lock);\n		while (! self->complete)\n			cond_var_wait","		mutex_lock(&self->lock);\n		if (! self->complete && self->output.start == NULL)\n			cond_var_wait"),
("C18","server/client/request.h","		self->on_complete(self->on_complete_arg);\n	cond_var_signal(&self->cond_var);\n	mutex_unlock(&self->lock);","		self->on_complete(self->on_complete_arg);\n	mutex_unlock(&self->lock);\n	cond_var_signal(&self->cond_var);"),
("C18","server/client/request.h","	mutex_lock(&self->lock);\n	complete = self->complete;\n	if (!complete","	complete = self->complete;\n	mutex_lock(&self->lock);\n	if (!complete"),
("C18","runtime/base/cond_var.h","	ts.tv_sec  = tv.tv_sec + (time_ms / 1000);","	ts.tv_sec  = tv.tv_sec;"),
("C18","db/transaction/limit.h","	atomic_u64_add(&self->log_size, size);","	self->log_size += size;"),
("C18","db/transaction/limit.h","	// this might be slightly inaccurate\n	if (unlikely((atomic_u64_of(&self->log_size) + size) >= self->log_size_limit))\n		error(\"transaction log limit reached\");\n\n	atomic_u64_add(&self->log_size, size);","	if (unlikely((atomic_u64_add(&self->log_size, size) + size) >= self->log_size_limit))\n		error(\"transaction log limit reached\");"),
("C18","runtime/runtime/opt.h","	value = atomic_u64_inc(&self->integer);\n	return value + 1;","	atomic_u64_inc(&self->integer);\n	value = atomic_u64_of(&self->integer);\n	return value;"),
("C18","runtime/runtime/opt.h","	atomic_u64_sub(&self->integer, value);","	atomic_u64_set(&self->integer, atomic_u64_of(&self->integer) - value);"),
("C18","runtime/runtime/lockable_mgr.h","	atomic_u32_dec(&self->bp_refs);","	if (self->bp_refs > 0)\n		self->bp_refs--;"),
("C18","runtime/base/atomic.h","atomic_u32_dec(atomic_u32* self)\n{\n	return __sync_fetch_and_sub(self, 1);","atomic_u32_dec(atomic_u32* self)\n{\n	return __sync_sub_and_fetch(self, 1) + (*self == 0 ? 1 : 0);"),
]
M += [
("C13","db/catalog/table_config.h","	table_config_set_unlogged(copy, self->unlogged);\n",""),
("C13","db/catalog/table_config.h","		keys_set_primary(&config_copy->keys, !primary_keys);\n		if (primary_keys == NULL)\n			primary_keys = &config_copy->keys;","		keys_set_primary(&config_copy->keys, config_copy->primary);\n		if (primary_keys == NULL)\n			primary_keys = &config_copy->keys;"),
("C13","db/catalog/table_config.h","		auto config_dup = tier_config_copy(config);\n		table_config_tier_add(copy, config_dup);","		auto config_dup = tier_config_copy(config);\n		list_append(&copy->tiers, &config_dup->link);"),
("C13","db/row/constraints.h","	constraints_set_as_identity_modulo(copy, self->as_identity_modulo);\n",""),
("C13","db/row/constraints.h","	constraints_set_as_resolved(copy, &self->as_resolved);","	constraints_set_as_resolved(copy, &self->as_stored);"),
("C13","db/row/constraints.h","	if (self->as_identity_modulo != INT64_MAX)","	if (self->as_identity_modulo > 0 && self->as_identity_modulo != INT64_MAX)"),
("C13","db/row/constraints.h","	// as_identity\n	if (self->as_identity)","	// as_identity\n	if (self->as_identity && self->as_identity != IDENTITY_RANDOM)"),
("C13","db/row/constraints.h","str_is_case(&name, \"as_resolved\", 11)","str_is_case(&name, \"as_resolve\", 10)"),
("C13","db/row/columns.h","	if (column->constraints.as_identity && !self->identity)\n		self->identity = column;\n}\n\nstatic inline void\ncolumns_del","	if (column->constraints.as_identity)\n		self->identity = column;\n}\n\nstatic inline void\ncolumns_del"),
("C13","db/row/columns.h","	if (! str_empty(&cons->as_resolved))\n		self->count_resolved++;\n\n	// save order","	if (! str_empty(&cons->as_resolved) && str_empty(&cons->as_stored))\n		self->count_resolved++;\n\n	// save order"),
("C13","db/index/index_config.h","	index_config_set_primary(copy, self->primary);\n",""),
("C13","db/row/key.h","	key_set_asc(copy, self->asc);\n",""),
("C13","db/row/key.h","	key_set_ref(copy, self->ref);","	key_set_ref(copy, self->column ? self->column->order : self->order);"),
("C13","db/tier/tier_config.h","	tier_config_set_object_size(copy, self->object_size);","	tier_config_set_object_size(copy, self->region_size);"),
("C13","db/storage/storage_config.h","	storage_config_set_compression_level(copy, self->compression_level);\n",""),
("C13","db/catalog/udf_config.h","	udf_config_set_type(copy, self->type);\n",""),
("C13","runtime/json/decode.h","				str_free(value);\n				json_read_string_copy(pos, value);","				if (str_empty(value))\n					json_read_string_copy(pos, value);\n				else\n					json_skip(pos);"),
("C13","runtime/json/decode.h","		if (! found)\n			json_skip(pos);","		if (! found)\n			error(\"%s: unknown key\", context);"),
("C13","runtime/json/decode.h","				if (unlikely(! json_is_obj(*pos)))\n					error(\"%s: object expected for '%s'\", context,\n					      ref->key);\n",""),
("C13","runtime/runtime/opt.h","		if (unlikely(value == 0 && opt_is(self, OPT_Z)))\n			error(\"option '%.*s': cannot be set to zero\",\n			      str_size(name), str_of(name));\n		opt_int_set(self, value);","		opt_int_set(self, value);\n		if (unlikely(value == 0 && opt_is(self, OPT_Z)))\n			error(\"option '%.*s': cannot be set to zero\",\n			      str_size(name), str_of(name));"),
("C13","runtime/runtime/opt.h","		bool result = true;\n		if (! str_empty(value))","		bool result = opt_int_of(self) ? false : true;\n		if (! str_empty(value))"),
("C13","runtime/runtime/opt.h","		if (str_toint(value, &result) == -1)\n			error","		if (str_toint(value, &result) == -1 && result == 0)\n			error"),
("C13","runtime/runtime/opts.c","		if (! opt_is(opt, OPT_E))\n			update = true;\n\n		// set data value","		update = ! opt_is(opt, OPT_E);\n\n		// set data value"),
("C13","runtime/runtime/opts.c","			if (opts_set(self, &value))\n				update = true;","			update = opts_set(self, &value);"),
("C13","runtime/runtime/opts.c","			opt_json_set_str(opt, &opt_from->string);","			break;"),
("C13","runtime/runtime/opts.c","		if (opt_is(opt, OPT_E))\n			continue;\n		encode_string","		if (opt_is(opt, OPT_E) || opt_is(opt, OPT_H))\n			continue;\n		encode_string"),
("C13","runtime/runtime/opt.h","	str_free(&self->string);\n	if (! str_empty(str))\n		str_copy(&self->string, str);","	if (str_empty(str))\n		return;\n	str_free(&self->string);\n	str_copy(&self->string, str);"),
("C13","server/server/server_config.h","			if (! json_is_bool(*pos))\n				error(\"server: listen[] <tls> must be a bool\");\n			json_read_bool(pos, &self->tls);","			if (! json_is_bool(*pos))\n				error(\"server: listen[] <tls> must be a bool\");\n			json_read_bool(pos, &self->auth);"),
("C13","server/server/server_config.h","strtol(str_of(&path_mode), NULL, 8)","strtol(str_of(&path_mode), NULL, 0)"),
]
M += [
("C08","db/object/meta_iterator.h","		if (compare(self->keys, at, row) < 0)\n			begin = mid + 1;","		if (compare(self->keys, at, row) <= 0)\n			begin = mid + 1;"),
("C08","db/object/meta_iterator.h","	if (compare(self->keys, at, row) < 0)\n		self->pos++;","	if (compare(self->keys, at, row) <= 0)\n		self->pos++;"),
("C08","db/object/region_iterator.h","	int max = self->region->rows - 1;","	int max = self->region->rows - 2;"),
("C08","db/object/region_writer.h","	return (Row*)(self->data.start + offset[header->rows - 1]);","	return (Row*)(self->data.start + offset[header->rows > 1 ? header->rows - 2 : 0]);"),
("C08","db/object/meta_writer.h","	ref->offset      = region_offset;","	ref->offset      = region_offset & 0xfffff;"),
("C08","db/object/meta.h","	return (Row*)(self->data + self->size_min);","	return (Row*)(self->data + self->size_max);"),
("C08","db/object/merge_iterator.h","		auto rc = compare(self->keys, min, row);\n		if (rc == 0)\n		{\n			current->advance = true;\n		} else","		auto rc = compare(self->keys, min, row);\n		if (rc == 0)\n		{\n			current->advance = true;\n			min_iterator = current->it;\n		} else"),
("C08","db/object/merge_iterator.h","			for (auto i = 0; i < self->list_count; i++)\n				list[i].advance = false;","			for (auto i = 0; i < pos - 1; i++)\n				list[i].advance = false;"),
("C08","db/object/merge_iterator.h","	self->keys       = NULL;\n	self->list_count = 0;\n	buf_reset(&self->list);","	self->keys       = NULL;\n	buf_reset(&self->list);"),
("C08","db/object/object.c","	if (offset != self->file.size)","	if (offset + sizeof(Meta) < self->file.size)"),
("C08","db/object/object.c","	while (self->branches_count < (int)self->id.version)","	while (offset < self->file.size)"),
("C08","db/object/object.c","	encoder_set_compression(&encoder, meta->compression);\n",""),
("C08","db/object/object.c","	if (crc != meta->crc)\n		error(\"object: file header","	if (crc != meta->crc && opt_int_of(&config()->storage_crc) == false)\n		error(\"object: file header"),
("C08","db/object/object.c","	if (! self->root)\n		self->root = branch;","	self->root = branch;"),
("C08","db/object/writer.c","	auto offset = self->file->size - meta->size_total;\n	file_pwrite","	auto offset = self->file->size - meta->size_total_origin;\n	file_pwrite"),
("C08","db/object/branch_iterator.h","	for (;;)\n	{\n		if (likely(region_iterator_has","	while (self->branch->meta.regions > 2 || self->meta_iterator.pos == 0)\n	{\n		if (likely(region_iterator_has"),
("C08","db/object/reader.h","	    region->rows != meta_region->rows)","	    region->rows < meta_region->rows)"),
("C08","db/object/writer.c","	if (region_writer_started(&self->region_writer))\n		writer_stop_region(self);\n	meta_writer_stop","	if (! writer_is_region_limit(self) || self->meta_writer.meta.regions == 0)\n		writer_stop_region(self);\n	meta_writer_stop"),
("C04","db/heap/heap_file.c","	if (crc != header->crc)\n		error(\"heap: file '%s' header crc","	if (crc != header->crc && ! opt_int_of(&config()->storage_crc))\n		error(\"heap: file '%s' header crc"),
("C04","db/heap/heap_file.c","				if (crc != page_header->crc)\n					error(\"heap: file '%s' page crc mismatch\",\n					      str_of(&file.path));\n			}\n\n			encoder_decode","				if (crc != page_header->crc && page_header->order == 0)\n					error(\"heap: file '%s' page crc mismatch\",\n					      str_of(&file.path));\n			}\n\n			encoder_decode"),
("C04","db/heap/heap_file.c","				crc = runtime()->crc(0, page_data, page_size);\n				if (crc != page_header->crc)","				crc = runtime()->crc(0, page_data, page_size);\n				if (crc != page_header->crc && page_header->crc != 0 && i + 1 < header->count)"),
("C04","db/heap/heap_file.c","	encoder_set_compression(&ec, header->compression);\n",""),
("C04","db/heap/heap_file.c","if (page_header->order != i ||","if (page_header->order > i ||"),
("C04","db/heap/heap_file.c","	if (self->last->offset != last || !self->last->is_last)","	if (self->last->offset != last)"),
("C04","db/heap/heap_file.c","	if (header->version != HEAP_VERSION)","	if (header->version > HEAP_VERSION)"),
("C04","db/heap/heap_file.c","	auto page = page_mgr_at(page_mgr, header->count - 1);\n	self->page_header","	auto page = page_mgr_at(page_mgr, header->count > 2 ? 1 : header->count - 1);\n	self->page_header"),
("C04","db/heap/heap.c","		bucket->list        = chunk->prev;\n		bucket->list_offset = chunk->prev_offset;","		bucket->list        = chunk->prev & 0x1;\n		bucket->list_offset = chunk->prev_offset;"),
("C05","db/heap/heap.c","	heap_set(self, 192, 224, 16384,   512);","	heap_set(self, 192, 224, 16384,   496);"),
("C05","db/heap/heap.c","			heap->last = NULL;\n			heap->header->count++;","			heap->header->count++;"),
("C05","db/heap/heap.c","	heap->header->size_used += bucket->size;","	heap->header->size_used += sizeof(HeapChunk) + size;"),
("C10","db/row/row.h","	if (size > UINT8_MAX)\n","	if (size > UINT8_MAX + 1)\n"),
("C10","db/row/row.h","		if (size > UINT16_MAX)\n","		if (size > UINT16_MAX + 1)\n"),
("C10","db/row/row.h","		if (size > UINT16_MAX)\n","		if (data_size > UINT16_MAX)\n"),
("C10","db/row/row.h","	if (unlikely(column >= self->columns))\n		return NULL;","	if (unlikely(column > self->columns))\n		return NULL;"),
("C10","db/row/compare.h","			rc = compare_int32(","			rc = (int32_t)compare_int64("),
("C10","db/row/compare.h","			rc = compare_int64(*(int64_t*)row_column(a, column),\n			                   *(int64_t*)row_column(b, column));","			rc = (int)(*(int64_t*)row_column(a, column) -\n			           *(int64_t*)row_column(b, column));"),
("C10","db/row/compare.h","			rc = compare_int32(*(int32_t*)row_column(a, column),\n			                   *(int32_t*)row_column(b, column));","			rc = *(int32_t*)row_column(a, column) -\n			     *(int32_t*)row_column(b, column);"),
("C10","db/row/row.h","			hash = hash_murmur3_32(pos, column->type_size, hash);","			hash = hash_murmur3_32(pos, column->type_size, 0);"),
("C12","db/catalog/table_mgr_alter.c","	table_config_set_db(table->config, &db);\n	table_config_set_name(table->config, &name);","	table_config_set_name(table->config, &name);"),
("C12","db/catalog/table_mgr_alter.c","	// ensure new table does not exists\n	if (table_mgr_find(self, db_new, name_new, false))","	// ensure new table does not exists\n	if (table_mgr_find(self, db, name_new, false))"),
("C12","db/catalog/table_mgr_alter.c","	if (! str_compare_case(&table->config->name, name_new))","	if (! str_compare_case(&table->config->db, db_new) || str_size(name) != str_size(name_new))"),
("C12","db/catalog/table_mgr_alter.c","	sequence_set(&table->seq, value);\n}\n\nstatic LogIf","	sequence_sync(&table->seq, value);\n}\n\nstatic LogIf"),
("C12","db/catalog/table_mgr_alter.c","	column_set_dropped(column, false);\n","	column_set_dropped(column, false);\n	if (column->constraints.not_null) return;\n"),
("C12","db/catalog/table_mgr_alter.c","	columns_del(&table->config->columns, column);\n	column_free(column);\n	columns_sync(&table->config->columns);","	columns_del(&table->config->columns, column);\n	column_free(column);"),
("C12","db/catalog/table_mgr_alter.c","	if (column->refs > 0)\n","	if (column->refs > 1)\n"),
("C12","db/catalog/table_mgr_alter.c","	encode_bool(&tr->log.data, table->config->unlogged);","	encode_bool(&tr->log.data, ! value);"),
("C12","db/catalog/table_mgr_alter.c","	constraints_free(cons);\n	constraints_init(cons);\n	constraints_read(cons, &pos);\n	columns_sync(&table_of(relation->relation)->config->columns);","	constraints_free(cons);\n	constraints_init(cons);\n	constraints_read(cons, &pos);"),
("C12","db/catalog/cascade.c","		if (! str_compare_case(&udf->config->db, db))\n			continue;\n		if (drop)","		if (! str_compare_case(&udf->config->db, db) || ! drop)\n			continue;\n		if (drop)"),
("C12","db/catalog/cascade.c","		if (str_compare_case(&udf->config->db, db))\n			error(\"function '%.*s' is using","		if (str_compare(&udf->config->db, db_new))\n			error(\"function '%.*s' is using"),
("C12","db/catalog/cascade.c","	if (db->config->system)\n		error(\"database '%.*s': system db cannot be renamed\"","	if (db->config->system && str_empty(name_new))\n		error(\"database '%.*s': system db cannot be renamed\""),
("C12","db/catalog/table_mgr.c","		if (uuid_is(&table->config->id, id))","		if (table->config->id.a == id->a || uuid_is(&table->config->id, id))"),
("C14","runtime/json/json_parser.c","			if (slash) {\n				slash = false;\n				self->pos++;\n				continue;\n			}","			if (self->pos[-1] == '\\\\') {\n				slash = false;\n				self->pos++;\n				continue;\n			}"),
("C14","runtime/json/json_parser.c","	if (unlikely(self->pos == self->end))\n		error(\"unterminated JSON string\");",""),
("C14","runtime/json/json_parser.c","		auto digit = *self->pos - '0';\n		if (unlikely(int64_mul_add_overflow(value, *value, 10, minus ? -digit : digit)))\n			overflow = true;","		auto digit = *self->pos - '0';\n		if (unlikely(int64_mul_add_overflow(value, *value, 10, digit)))\n			overflow = ! minus;"),
("C14","runtime/json/json_parser.c","	char number[512];","	char number[20];"),
("C14","runtime/json/json_parser.c","	if ((errno == ERANGE && isinf(*real)) || end == number)","	if (end == number)"),
("C14","runtime/json/json_parser.c","	if (minus)\n		*real = -(*real);\n","	if (minus && *real >= 1e-300)\n		*real = -(*real);\n"),
("C14","runtime/json/json_parser.c","	return (self->pos + name_size) <= self->end &&\n","	return (self->pos + name_size) <= self->end + 1 &&\n"),
("C14","runtime/json/escape.h","	if (end - pos < 4)\n		return -1;\n","	if (end - pos < 3)\n		return -1;\n"),
("C14","runtime/json/escape.h","code <= 0xDBFF && end - at >= 6 &&","code < 0xDBFF && end - at >= 6 &&"),
("C14","runtime/json/escape.h","		if (low >= 0xDC00 && low <= 0xDFFF)","		if (low >= 0xDC00)"),
("C14","runtime/json/escape.h","	if (code < 0x800)\n","	if (code <= 0x800)\n"),
("C14","runtime/json/escape.h","			if (unlikely((uint8_t)*pos < 0x20))","			if (unlikely((uint8_t)*pos < 0x1f))"),
("C14","runtime/json/escape.h","				buf_printf(self, \"\\\\u%04x\", (uint8_t)*pos);","				buf_printf(self, \"\\\\u%04d\", (uint8_t)*pos);"),
("C14","runtime/json/escape.h","		case '\\f':\n			buf_write(self, \"\\\\f\", 2);\n			break;\n",""),
("C14","runtime/json/escape.h","		if (*pos == '\\\\' && !slash) {","		if (*pos == '\\\\' && (!slash || pos + 1 == end)) {"),
("C15","runtime/json/json_compare.h","			if (! json_is_array_end(b))\n				return compare_int64(*a, *b);","			if (! json_is_array_end(b))\n				return 1;"),
("C15","runtime/json/json_compare.h","			json_read_array_end(&b);\n			level--;","			json_read_array_end(&b);\n			level = 0;"),
("C15","runtime/json/json_compare.h","			if (! json_is_obj_end(b))\n				return compare_int64(*a, *b);","			if (! json_is_obj_end(b))\n				return -1;"),
("C15","runtime/json/json_compare.h","			rc = compare_double(a_value, b_value);","			rc = compare_int64(a_value, b_value);"),
("C15","runtime/json/json_op.h","		if (str_is(&key, name, name_size))\n			return true;\n		json_skip(pos);\n","		if (str_is(&key, name, name_size))\n			return true;\n		if (json_is_obj(*pos)) { json_read_obj(pos); while (! json_is_obj_end(*pos)) { json_skip(pos); json_skip(pos); if (json_is_obj(*pos)) break; } json_read_obj_end(pos); } else\n		json_skip(pos);\n"),
("C15","runtime/json/json_op.h","		if (size == -1) {\n			if (! json_obj_find(pos, current, left))","		if (size == -1 || left - size == 1) {\n			if (! json_obj_find(pos, current, left))"),
("C15","runtime/json/json_op.h","		if (json_is_array_end(at))\n			return true;","		if (*at >= JSON_ARRAY_END)\n			return true;"),
("C15","runtime/json/json_op.h","		if (i == position)\n			return true;\n		json_skip(pos);","		if (i == (position & 0x7f))\n			return true;\n		json_skip(pos);"),
("C15","runtime/json/json_op.h","		case JSON_ARRAY_END:\n		case JSON_OBJ_END:\n			*pos += json_size_type();\n			level--;","		case JSON_ARRAY_END:\n		case JSON_OBJ_END:\n			*pos += json_size_type();\n			level -= level > 3 ? 2 : 1;"),
("C16","runtime/lib/timestamp.c","		case 4: self->us *= 100;","		case 4: self->us *= 1000;"),
("C16","runtime/lib/timestamp.c","	self->zone = hh * 60 * 60 + mm * 60;\n	if (negative)\n		self->zone = -self->zone;","	self->zone = hh * 60 * 60;\n	if (negative)\n		self->zone = -self->zone;\n	self->zone += mm * 60;"),
("C16","runtime/lib/timestamp.c","			tztime = timezone_match(timezone, time - tztime->utoff);\n			assert(tztime);\n",""),
("C16","runtime/lib/timestamp.c","	if ((ts.us % 1000) == 0)","	if ((ts.us % 100) == 0)"),
("C16","runtime/lib/timestamp.c","		int min    = (offset - (3600 * hr)) / 60;","		int min    = (tztime->utoff - (3600 * hr)) / 60;"),
("C16","runtime/lib/timestamp.c","	self->us = value % 1000000ULL;\n	if (! gmtime_r(&time, &self->time))","	self->us = value % 1000000ULL;\n	if (! localtime_r(&time, &self->time))"),
("C16","runtime/lib/timestamp.c","		int y = m / 12;\n		if (y != 0)\n		{\n			self->time.tm_year += y;\n			m = m % 12;\n		}\n		if (m != 0)\n			self->time.tm_mon += m;","		int y = m / 12;\n		if (y != 0)\n			self->time.tm_year += y;\n		else\n			self->time.tm_mon += m;"),
("C16","runtime/lib/date.c","(y / 4) - (y / 100) + (y / 400)","(y / 4) - (y / 100) + (y / 500)"),
("C16","runtime/lib/date.c","    int g  = (f / 10);","    int g  = (f / 11);"),
("C16","runtime/lib/date.c","	int64_t result = julian_day - days;\n	date_validate(result);","	int64_t result = julian_day - days;"),
("C16","runtime/lib/date.c","	if (pos != pos_end)\n		date_error_str(str);","	if (pos == pos_end - 4)\n		date_error_str(str);"),
("C16","runtime/lib/interval.c","			m = m % 12;\n		}\n		if (m != 0)\n		{\n			span","			m = m - abs(y) * 12;\n		}\n		if (m != 0)\n		{\n			span"),
("C16","runtime/lib/interval.c","			self->d = interval_read_int(self->d, type, value, 7);","			self->d = interval_read_int(0, type, value, 7);"),
("C16","runtime/lib/interval.c","	             value < INT32_MIN || value > INT32_MAX))","	             value > INT32_MAX))"),
("C16","runtime/lib/interval.c","	rc = compare_int64(a->d, b->d);\n	if (rc != 0)\n		return rc;\n","	rc = compare_int64((int16_t)a->d, (int16_t)b->d);\n	if (rc != 0)\n		return rc;\n"),
("C16","runtime/lib/interval.c","		us = us % (1000LL * 1000);\n	}\n\n	// milliseconds\n	int64_t ms = us / 1000;","		us = us - seconds * (1000LL * 1000);\n	}\n\n	// milliseconds\n	int32_t ms = us / 1000;"),
("C17","runtime/lib/base64.c","	case 2:\n		buf_append_u8(self, base64_encode_table[(last & 0x0F) << 2]);\n		buf_append_u8(self, '=');","	case 2:\n		buf_append_u8(self, base64_encode_table[(last & 0x0F) << 2]);\n		if (last) buf_append_u8(self, '=');"),
("C17","runtime/lib/base64.c","			out[out_order++] |= (c >> 2) & 0x0F;","			out[out_order++] |= (c >> 2) & 0x07;"),
("C17","runtime/lib/base64.c","		if (unlikely(c == 255))\n","		if (unlikely(c == 255 && *pos != '\\n'))\n"),
("C17","runtime/lib/base64.c","		if (unlikely(*pos >= sizeof(base64_decode_table)))\n			goto error;\n\n		auto c = base64_decode_table[*pos];","		auto c = base64_decode_table[*pos & 0x7f];"),
("C17","runtime/lib/utf8.h","		if (unlikely(unicode < 0x800))\n","		if (unlikely(unicode < 0x80))\n"),
("C17","runtime/lib/utf8.h","(end - *pos) >= 4 &&","(end - *pos) >= 3 &&"),
("C17","runtime/lib/utf8.h","		if ((*(uint8_t*)pos & 0xC0) != 0x80)\n			len++;","		if ((*(uint8_t*)pos & 0xC0) != 0x80 || (*(uint8_t*)pos & 0x3F) == 0x3F)\n			len++;"),
("C17","runtime/lib/uuid.c","	     bits->d, bits->e, bits->f);","	     bits->d, bits->e & 0xfff, bits->f);"),
("C17","runtime/lib/uuid.c","			bits->e = value;\n			value = 0;","			bits->e = value;"),
("C17","runtime/lib/uuid.c","			if (byte >= 'A' && byte <= 'F')\n				byte = byte - 'A' + 10;","			if (byte >= 'A' && byte <= 'F')\n				byte = byte - 'A' + 9;"),
]
M = [m for m in M if m[2] != m[3]]
# equivalent: no observable difference
EQUIV = {"C12-316", "C12-322", "C14-337", "C16-363", "C17-372", "C04-297", "C10-307", "C12-315", "C15-339", "C15-343", "C15-345", "C12-323", "C16-353", "C14-331", "C14-333", "C08-284", "C08-288", "C08-289", "C23-179", "C23-180", "C23-182", "C23-189", "C32-105", "C13-256", "C13-262", "C21-210"}
