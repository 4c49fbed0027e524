// C06: ordered index against a sorted array
#include "index_common.h"

static void scan(Index* index, bool from_start, int n, int actions)
{
	bool match = false;
	int at = from_start ? 0 : ent_at(n, &match);
	auto it = index_iterator(index);
	bool found = iterator_open(it, from_start ? NULL : row_of(n, true));
	pbt_check(found == (! from_start && match), "open %s says %s", from_start ? "first" : name_of(n), found ? "found" : "not found");
	int steps = 0, limit = PICK(4) == 0 ? 1 + PICK(20) : INT_MAX;
	int stop_actions = actions ? 1 + PICK(200) : 0;
	for (;; steps++) {
		if (at >= ents_n) {
			pbt_check(! iterator_has(it) && ! iterator_at(it), "scan continues after the last row");
			break;
		}
		pbt_check(iterator_has(it), "scan ends before %s", name_of(ents[at].n));
		pbt_check(iterator_at(it) == ents[at].row, "scan is not at %s", name_of(ents[at].n));
		if (steps >= limit) break;
		int a = steps < stop_actions ? (actions == 1 ? 1 : actions == 2 ? 2 : actions == 3 ? PICK(3) : 0) : 0;
		if (a == 1) {
			Row* row = row_of(ents[at].n, false);
			pbt_check(index_replace(index, row, it) == ents[at].row, "replace under the iterator returned a wrong row");
			ents[at].row = row;
			pbt_check(iterator_at(it) == row, "iterator is not at the new row");
			at++;
		} else if (a == 2) {
			pbt_check(index_delete(index, it) == ents[at].row, "delete under the iterator returned a wrong row");
			ent_delete(at);
		} else
			at++;
		iterator_next(it);
	}
	iterator_close(it);
}
static void verify(Index* index)
{
	auto it = index_iterator(index);
	iterator_open(it, NULL);
	for (int i = 0; i < ents_n; i++) {
		pbt_check(iterator_has(it), "rows are missing from %s: %d of %d", name_of(ents[i].n), i, ents_n);
		pbt_check(iterator_at(it) == ents[i].row, "row %d of the index is not %s", i, name_of(ents[i].n));
		iterator_next(it);
	}
	pbt_check(! iterator_has(it), "index has more rows than expected");
	iterator_close(it);
}
static void small_pages(Index* index)
{
	// pages of 2..8 rows make deep trees from few rows
	auto self = (IndexTree*)index;
	static const int sizes[] = { 512, 4, 2, 8, 5 };
	int s = sizes[PICK(NELEM(sizes))];
	if (s == 512) return;
	self->tree.size_page  = s;
	self->tree.size_split = s / 2;
	pbt_note("pages of %d rows", s);
}
static void case_history(void)
{
	case_begin(INDEX_TREE);
	auto index = index_tree_allocate(config, NULL);
	small_pages(index);
	int max = 0;
	for (int op = 0; pbt_more(40) && ! pbt_exhausted(); op++) {
		static const int w[] = { 5, 3, 4, 5, 4, 5, 1, 1 };
		switch (pbt_weighted(w, NELEM(w))) {
		case 0: op_upsert(index); break;
		case 1: { int n = gen_n(); pbt_note("replace %s", name_of(n)); do_replace(index, n); break; }
		case 2: { int n = gen_n(); pbt_note("delete %s", name_of(n)); do_delete(index, n); break; }
		case 3: {
			int n = gen_n();
			bool match;
			int at = ent_at(n, &match);
			auto it = index_iterator(index);
			pbt_note("lookup %s", name_of(n));
			bool found = iterator_open(it, row_of(n, true));
			pbt_check(found == match, "lookup says %s", found ? "found" : "not found");
			pbt_check(iterator_at(it) == (at < ents_n ? ents[at].row : NULL), "lookup is not at the first row greater or equal to the key");
			iterator_close(it);
			break; }
		case 4: op_bulk(index); break;
		case 5: {
			bool first = PICK(3) == 0;
			int n = first ? 0 : gen_n();
			int actions = PICK(4);
			pbt_note("scan from %s%s", first ? "start" : name_of(n), actions == 1 ? " replacing" : actions == 2 ? " deleting" : actions == 3 ? " replacing and deleting" : "");
			scan(index, first, n, actions);
			break; }
		case 6: verify(index); break;
		case 7: if (PICK(4) == 0) { pbt_note("truncate"); index_truncate(index); ents_n = 0; } break;
		}
		if (ents_n > max) max = ents_n;
	}
	verify(index);
	int pages = ((IndexTree*)index)->tree.count_pages;
	if (pages > 1) pbt_class("several pages");
	if (pages > 8) pbt_class("deep tree");
	if (max > 2) pbt_nontrivial();
	index_free(index);
	case_end();
}
static void case_merge(void)
{
	case_begin(INDEX_TREE);
	int k = 1 + PICK(6);
	pbt_note("merge of %d indexes", k);
	Index* index[6];
	for (int i = 0; i < k; i++) { index[i] = index_tree_allocate(config, NULL); small_pages(index[i]); }
	for (int r = 0; r < 3 && pbt_more(2); r++) {
		int start = PICK(domain), count = 1 + PICK(domain > 700 ? 700 : domain);
		int part = PICK(3);
		pbt_note("insert %d keys from %d", count, start);
		for (int i = 0; i < count; i++) {
			int n = (start + i) % domain;
			bool match;
			int at = ent_at(n, &match);
			if (match) continue;
			Row* row = row_of(n, false);
			int which = part == 0 ? (int)(mix(n) % k) : part == 1 ? n % k : (n / 50) % k;
			pbt_check(! index_replace_by(index[which], row), "unexpected row");
			ent_insert(at, n, row);
		}
	}
	for (int q = 0; q < 3; q++) {
		Iterator* it = NULL;
		for (int i = 0; i < k; i++) it = index_iterator_merge(index[i], it);
		bool first = PICK(3) == 0;
		int n = first ? 0 : gen_n();
		bool match = false;
		int at = first ? 0 : ent_at(n, &match);
		pbt_note("scan from %s", first ? "start" : name_of(n));
		bool found = iterator_open(it, first ? NULL : row_of(n, true));
		pbt_check(found == (! first && match), "open says %s", found ? "found" : "not found");
		for (; at < ents_n; at++) {
			pbt_check(iterator_has(it), "merge ends before %s", name_of(ents[at].n));
			pbt_check(iterator_at(it) == ents[at].row, "merge is not at %s", name_of(ents[at].n));
			iterator_next(it);
		}
		pbt_check(! iterator_has(it) && ! iterator_at(it), "merge continues after the last row");
		iterator_close(it);
	}
	if (k > 1 && ents_n > 2) pbt_nontrivial();
	pbt_class("merge");
	for (int i = 0; i < k; i++) index_free(index[i]);
	case_end();
}
static void run_case(void)
{
	if (PICK(6) == 0) case_merge(); else case_history();
}
PbtHarness pbt_harness = { .name = "index_tree", .run = run_case };
