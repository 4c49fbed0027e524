#pragma once
// reference rows: typed cells, schema and comparison independent from the code under test
typedef struct
{
	bool    null;
	int64_t i;          // bool, int, date, timestamp; interval us
	int32_t m, d;       // interval
	double  r;
	uint64_t ua, ub;    // uuid
	uint8_t* p;         // string, json (encoded), vector (floats)
	int     n;
} Cell;

typedef struct { int type; int size; } ColDef;

#define COLS_MAX 64
typedef struct
{
	Columns columns;
	ColDef  def[COLS_MAX];
	int     count;
} Schema;

static void schema_init(Schema* s) { columns_init(&s->columns); s->count = 0; }
static void schema_add(Schema* s, int type, int size)
{
	auto c = column_allocate();
	char name[32];
	snprintf(name, sizeof(name), "c%d", s->count);
	Str n; str_set_cstr(&n, name);
	column_set_name(c, &n);
	column_set_type(c, type, size);
	columns_add(&s->columns, c);
	s->def[s->count].type = type;
	s->def[s->count].size = size;
	s->count++;
}
static void schema_free(Schema* s) { columns_free(&s->columns); }

static int cell_size(ColDef* d, Cell* c)
{
	if (c->null) return 0;
	if (d->size) return d->size;
	switch (d->type) {
	case TYPE_STRING: return json_size_string(c->n);
	case TYPE_JSON:   return c->n;
	case TYPE_VECTOR: return 4 + c->n * 4;
	}
	abort();
}
static void cell_write(ColDef* d, Cell* c, uint8_t** pos)
{
	if (d->size) {
		uint8_t* p = *pos;
		switch (d->type) {
		case TYPE_DOUBLE:
			if (d->size == 4) { float f = c->r; memcpy(p, &f, 4); } else memcpy(p, &c->r, 8);
			break;
		case TYPE_UUID: memcpy(p, &c->ua, 8); memcpy(p + 8, &c->ub, 8); break;
		case TYPE_INTERVAL: memcpy(p, &c->m, 4); memcpy(p + 4, &c->d, 4); memcpy(p + 8, &c->i, 8); break;
		default: memcpy(p, &c->i, d->size); break; // little endian
		}
		*pos += d->size;
		return;
	}
	switch (d->type) {
	case TYPE_STRING: { Str s; str_set(&s, (char*)c->p, c->n); json_write_string(pos, &s); return; }
	case TYPE_JSON: memcpy(*pos, c->p, c->n); *pos += c->n; return;
	case TYPE_VECTOR: { uint32_t n = c->n; memcpy(*pos, &n, 4); memcpy(*pos + 4, c->p, c->n * 4); *pos += 4 + c->n * 4; return; }
	}
	abort();
}
static int cells_size(Schema* s, Cell* cells)
{
	int n = 0;
	for (int i = 0; i < s->count; i++) n += cell_size(&s->def[i], &cells[i]);
	return n;
}
static void cells_write(Schema* s, Cell* cells, Row* row)
{
	uint8_t* pos = row_data(row, s->count);
	for (int i = 0; i < s->count; i++) {
		int offset = pos - (uint8_t*)row;
		if (cells[i].null) { row_set_null(row, i); continue; }
		cell_write(&s->def[i], &cells[i], &pos);
		row_set(row, i, offset);
	}
}
// row in exactly sized memory
static Row* row_build(Schema* s, Cell* cells)
{
	int factor;
	int size = row_measure(s->count, cells_size(s, cells), &factor);
	Row* row = malloc(size);
	memset(row, 0x5a, size);
	row_init(row, s->count, factor, size);
	cells_write(s, cells, row);
	return row;
}
static Row* row_build_heap(Schema* s, Cell* cells, Heap* heap)
{
	auto row = row_allocate(heap, s->count, cells_size(s, cells));
	cells_write(s, cells, row);
	return row;
}
// difference between a cell and a stored column, by our own decoding
static bool cell_is(ColDef* d, Cell* c, void* at)
{
	if (c->null) return at == NULL;
	if (! at) return false;
	uint8_t tmp[64];
	if (d->size) { uint8_t* p = tmp; cell_write(d, c, &p); return ! memcmp(tmp, at, d->size); }
	uint8_t* p = at;
	switch (d->type) {
	case TYPE_STRING: { Str s; json_read_string(&p, &s); return str_size(&s) == c->n && (c->n == 0 || ! memcmp(str_of(&s), c->p, c->n)); }
	case TYPE_JSON: return ! memcmp(p, c->p, c->n);
	case TYPE_VECTOR: { uint32_t n; memcpy(&n, p, 4); return (int)n == c->n && ! memcmp(p + 4, c->p, n * 4); }
	}
	abort();
}
static int cell_cmp(ColDef* d, Cell* a, Cell* b)
{
	switch (d->type) {
	case TYPE_STRING: {
		int n = a->n < b->n ? a->n : b->n;
		for (int i = 0; i < n; i++)
			if (a->p[i] != b->p[i]) return a->p[i] < b->p[i] ? -1 : 1;
		return (a->n > b->n) - (a->n < b->n);
	}
	case TYPE_UUID:
		if (a->ua != b->ua) return a->ua < b->ua ? -1 : 1;
		return (a->ub > b->ub) - (a->ub < b->ub);
	default:
		return (a->i > b->i) - (a->i < b->i);
	}
}
