// C07: hash index against a map
#include "index_common.h"

static void scan_check(Iterator* it, Index* index, int actions)
{
	// every row is visited once
	char* seen = calloc(ents_n + 1, 1);
	Row** snap = malloc(sizeof(Row*) * (ents_n + 1));
	int*  ns = malloc(sizeof(int) * (ents_n + 1));
	int total = ents_n;
	for (int i = 0; i < total; i++) { snap[i] = ents[i].row; ns[i] = ents[i].n; }
	// find a snapshot entry by its row, using the version stored in the last column
	int steps = 0;
	int stop = actions ? 1 + PICK(200) : 0;
	while (iterator_has(it)) {
		Row* row = iterator_at(it);
		pbt_check(row, "iterator has no row");
		pbt_check(steps < total, "scan returns more rows than the index has");
		int i;
		static Row** tab; static int* idx; static int cap;
		if (steps == 0) {
			cap = 64; while (cap < total * 2 + 2) cap *= 2;
			tab = realloc(tab, sizeof(Row*) * cap); idx = realloc(idx, sizeof(int) * cap);
			memset(tab, 0, sizeof(Row*) * cap);
			for (int j = 0; j < total; j++) { int h = mix((uint64_t)snap[j]) & (cap - 1); while (tab[h]) h = (h + 1) & (cap - 1); tab[h] = snap[j]; idx[h] = j; }
		}
		int h = mix((uint64_t)row) & (cap - 1);
		while (tab[h] && tab[h] != row) h = (h + 1) & (cap - 1);
		i = tab[h] ? idx[h] : -1;
		pbt_check(i >= 0, "scan returns a row which is not in the index");
		pbt_check(! seen[i], "row %s is visited twice", name_of(ns[i]));
		seen[i] = 1;
		int a = index && steps < stop ? (actions == 3 ? PICK(3) : actions) : 0;
		if (a) {
			bool match;
			int at = ent_at(ns[i], &match);
			if (a == 1) {
				Row* other = row_of(ns[i], false);
				pbt_check(index_replace(index, other, it) == row, "replace under the iterator returned a wrong row");
				ents[at].row = other;
				pbt_check(iterator_at(it) == other, "iterator is not at the new row");
			} else {
				pbt_check(index_delete(index, it) == row, "delete under the iterator returned a wrong row");
				ent_delete(at);
			}
		}
		steps++;
		iterator_next(it);
	}
	for (int i = 0; i < total; i++) pbt_check(seen[i], "row %s is not visited (%d of %d are)", name_of(ns[i]), steps, total);
	pbt_check(! iterator_at(it), "iterator has a row after the end");
	free(seen); free(snap); free(ns);
}
static void verify(Index* index)
{
	auto it = index_iterator(index);
	pbt_check(! iterator_open(it, NULL), "full scan says found");
	scan_check(it, NULL, 0);
	iterator_close(it);
	if (((IndexHash*)index)->hash.rehashing) pbt_class("verified during rehashing");
}
static void lookup(Index* index, int n)
{
	bool match;
	int at = ent_at(n, &match);
	auto it = index_iterator(index);
	bool found = iterator_open(it, row_of(n, true));
	pbt_check(found == match, "lookup %s says %s", name_of(n), found ? "found" : "not found");
	pbt_check(iterator_at(it) == (match ? ents[at].row : NULL), "lookup of %s returned a wrong row", name_of(n));
	if (match && PICK(4) == 0) {
		// point update or delete
		if (PICK(2)) {
			Row* row = row_of(n, false);
			pbt_check(index_replace(index, row, it) == ents[at].row, "replace under the iterator returned a wrong row");
			ents[at].row = row;
		} else {
			pbt_check(index_delete(index, it) == ents[at].row, "delete under the iterator returned a wrong row");
			ent_delete(at);
		}
	}
	iterator_close(it);
}
static void case_history(void)
{
	case_begin(INDEX_HASH);
	auto index = index_hash_allocate(config, NULL);
	auto hash = &((IndexHash*)index)->hash;
	int max = 0;
	for (int op = 0; pbt_more(40) && ! pbt_exhausted(); op++) {
		static const int w[] = { 5, 3, 4, 5, 6, 3, 1, 1, 2 };
		switch (pbt_weighted(w, NELEM(w))) {
		case 0: op_upsert(index); break;
		case 1: { int n = gen_n(); pbt_note("replace %s", name_of(n)); do_replace(index, n); break; }
		case 2: { int n = gen_n(); pbt_note("delete %s", name_of(n)); do_delete(index, n); break; }
		case 3: { int n = gen_n(); pbt_note("lookup %s", name_of(n)); lookup(index, n); break; }
		case 4: op_bulk(index); break;
		case 5: {
			int actions = PICK(4);
			pbt_note("scan%s", actions == 1 ? " replacing" : actions == 2 ? " deleting" : actions == 3 ? " replacing and deleting" : "");
			auto it = index_iterator(index);
			pbt_check(! iterator_open(it, NULL), "full scan says found");
			scan_check(it, index, actions);
			iterator_close(it);
			break; }
		case 6: verify(index); break;
		case 7: if (PICK(4) == 0) { pbt_note("truncate"); index_truncate(index); ents_n = 0; } break;
		case 8: {
			// every present and many absent keys
			pbt_note("lookup all");
			for (int i = 0; i < ents_n; i++) {
				auto it = index_iterator(index);
				pbt_check(iterator_open(it, row_of(ents[i].n, true)), "row %s is not found", name_of(ents[i].n));
				pbt_check(iterator_at(it) == ents[i].row, "lookup of %s returned a wrong row", name_of(ents[i].n));
				iterator_close(it);
			}
			break; }
		}
		if (hash->rehashing) pbt_class("operation during rehashing");
		if (ents_n > max) max = ents_n;
		if (all_n > 60000) break;
	}
	verify(index);
	if (max > 128) { pbt_class("grown"); }
	if (max > 2) pbt_nontrivial();
	index_free(index);
	case_end();
}
static void case_merge(void)
{
	case_begin(INDEX_HASH);
	int k = 1 + PICK(6);
	pbt_note("merge of %d indexes", k);
	Index* index[6];
	for (int i = 0; i < k; i++) index[i] = index_hash_allocate(config, NULL);
	for (int r = 0; r < 3 && pbt_more(2); r++) {
		int start = PICK(domain), count = 1 + PICK(domain > 900 ? 900 : domain);
		int part = PICK(3);
		pbt_note("insert %d keys from %d", count, start);
		for (int i = 0; i < count; i++) {
			int n = (start + i) % domain;
			bool match;
			int at = ent_at(n, &match);
			if (match) continue;
			Row* row = row_of(n, false);
			int which = part == 0 ? (int)(mix(n) % k) : part == 1 ? n % k : (n / 50) % k;
			pbt_check(! index_replace_by(index[which], row), "unexpected row");
			ent_insert(at, n, row);
		}
	}
	Iterator* it = NULL;
	for (int i = 0; i < k; i++) it = index_iterator_merge(index[i], it);
	iterator_open(it, NULL);
	scan_check(it, NULL, 0);
	iterator_close(it);
	if (k > 1 && ents_n > 2) pbt_nontrivial();
	pbt_class("merge");
	for (int i = 0; i < k; i++) index_free(index[i]);
	case_end();
}
static void run_case(void)
{
	if (PICK(8) == 0) case_merge(); else case_history();
}
PbtHarness pbt_harness = { .name = "index_hash", .run = run_case };
