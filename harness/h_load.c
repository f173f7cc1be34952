/* Loading, differentially: any event stream (within the generator's bounds),
 * optionally with one injected fault, against the reference semantics in ref.h.
 *
 * NEV     value events per document      DEPTH  nesting
 * KEYSYM  symbolic characters in a free key (0: keys only from the zoo's list)
 * VALSYM  symbolic characters in a free value
 * ANCH    anchor names                   DOCS   documents in the stream
 * CFG     configuration flags            FAULT  1: one allocation or parser failure
 * CATS    guarantees asserted            DIFF   0: memory and leak checks only */
#include "zoo.h"
#include "ref.h"
#ifndef NEV
#define NEV 8
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef KEYSYM
#define KEYSYM 1
#endif
#ifndef VALSYM
#define VALSYM 1
#endif
#ifndef ANCH
#define ANCH 0
#endif
#ifndef DOCS
#define DOCS 1
#endif
#ifndef CFG
#define CFG 0
#endif
#ifndef FAULT
#define FAULT 0
#endif
#ifndef DIFF
#define DIFF 1
#endif
#ifndef LEAK
#define LEAK 1
#endif
#ifndef FILEAPI
#define FILEAPI 0
#endif
#ifndef NEEDALIAS
#define NEEDALIAS 0
#endif

static void pick(struct env_ev *e, const char *const *list, unsigned n, unsigned sym)
{
	unsigned k = vse_choose(n + (sym ? 1 : 0), "text");
	if (k < n) env_set_text(e, list[k]); else env_text_symbolic(e, sym);
}
static void text(struct env_ev *e, bool is_key, unsigned depth)
{
	(void)depth;
	if (is_key) pick(e, zoo_keys, ARRLEN(zoo_keys), KEYSYM);
	else pick(e, zoo_vals, ARRLEN(zoo_vals), VALSYM);
}

static int vctx;
int harness_main(void)
{
	cyaml_config_t cfg = env_config((CFG));
	cyaml_err_t err, want;
	uint64_t want_n = 0;
	unsigned n = 77;
	bool top_seq = zoo_schema.type == CYAML_SEQUENCE;
	static uint8_t sentinel;
	cyaml_data_t *d = &sentinel;

	cfg.validation_ctx = &vctx;
#ifdef WITH_CB
	cb_symbolic = true;
#endif
	env_gen.max_events = NEV; env_gen.max_depth = DEPTH; env_gen.docs = DOCS; env_gen.anchors = ANCH;
	env_gen.allow_scalar = env_gen.allow_seq = env_gen.allow_map = true;
	env_gen.empty_stream = true;
	env_gen.text = text;
	if (FAULT) { env_may_oom = env_may_oom_repeat = true; env_parse_may_fail = true; env_init_may_fail = true; }

#if FILEAPI
	if (FAULT) env_io_may_fail = true;
	err = cyaml_load_file("f", &cfg, &zoo_schema, &d, top_seq ? &n : NULL);
	CK(C_FILE, env_files == 0, "the file is closed");
	CK(C_FILE, env_fopens == 1 && env_fopen_mode[0] == 'r' || err != CYAML_OK, "one file is opened for reading");
	CK(C_FILE, env_fopens <= 1 && env_fcloses <= 1, "one file is opened and closed once");
	CK(C_FILE, err != CYAML_OK || (env_input_file && env_input == NULL), "the file is parsed");
	if (env_close_failed) { env_close_failed = false; env_faults = 0; }   /* nothing can be lost */
	if (env_open_failed) { vse_check(err == CYAML_ERR_FILE_OPEN, "a file that cannot be opened is reported"); vse_check(env_live == 0 && d == &sentinel && n == 77 && env_nin == 0, "a file that cannot be opened has no further effect"); vse_reach("noopen"); return 0; }
#else
	err = cyaml_load_data((const uint8_t *)"", 0, &cfg, &zoo_schema, &d, top_seq ? &n : NULL);
#endif
	vse_observe(err);
	if ((CATS) & C_LFAIL) env_check_no_libyaml("no parser or event of libyaml is left behind");
#if NEEDALIAS
	{ bool any = false; for (int i = 0; i < env_nin; i++) any |= env_in[i].type == YAML_ALIAS_EVENT; if (!any) vse_end(); }
#endif

#ifdef LOG
	{   /* the same load without logging */
		cyaml_data_t *d2 = &sentinel; unsigned n2 = 77, calls = env_mem_calls; size_t total = env_alloc_total; cyaml_err_t err2; int nin = env_nin, live = env_live;
		cyaml_config_t c2 = cfg;
		c2.log_fn = NULL; c2.log_ctx = NULL; c2.log_level = CYAML_LOG_ERROR;
		env_again(true); cb_replay = true; cb_n = 0;
		err2 = cyaml_load_data((const uint8_t *)"", 0, &c2, &zoo_schema, &d2, top_seq ? &n2 : NULL);
		vse_check(err == err2, "logging does not change the result");
		vse_check(n == n2 && (d == NULL) == (d2 == NULL) && (d == &sentinel) == (d2 == &sentinel), "logging does not change what is returned");
		vse_check(calls == env_mem_calls && total == env_alloc_total && env_live == 2 * live, "logging does not change the allocations");
		vse_check(nin == env_nin, "logging does not change how much is read");
		if (err == CYAML_OK && d) same_value(C_ALL, &zoo_schema, (uint8_t *)&d, (uint8_t *)&d2, top_seq ? n : 0, true);
		vse_reach(err == CYAML_OK ? "loaded" : "rejected");
		if (env_faults) vse_reach("fault");
		vse_end();
	}
#endif
	if (env_oom_hit) { CK(C_LFAIL, err == CYAML_ERR_OOM, "an allocation failure is reported as out of memory"); vse_reach("oom"); }
	else if (env_faults && !env_in_failed) { CK(C_LFAIL, err == CYAML_ERR_LIBYAML_PARSER_INIT, "a parser initialisation failure is reported"); vse_reach("init-fail"); }
	else if (DIFF) {
		want = ref_load(&cfg, &zoo_schema, err, (uint8_t **)&d, &want_n);
		if (err == CYAML_OK) {
			CK(ref_cat, want == CYAML_OK, "the loader rejects what the schema does not allow");
			if (top_seq) CK(C_SEQ | C_DOC, n == want_n, "the top level sequence count is returned");
		} else if (want == CYAML_OK) {
			CK(CATS, false, "a document that fits the schema is accepted");
		} else CK(ref_cat | C_ERR, err == want, "the documented error is reported");
	}
	if (err != CYAML_OK) {
		if (LEAK) {
			CK(C_LFAIL, d == &sentinel, "a failed load does not touch the caller's data pointer");
			CK(C_LFAIL, n == 77, "a failed load does not touch the caller's sequence count");
			CK(C_LFAIL, env_live == 0, "a failed load leaks nothing");
		}
		vse_reach("rejected");
		if (err == CYAML_ERR_LIBYAML_PARSER) vse_reach("parser-error");
	} else {
		if (ref_seqs > 1) vse_reach("entries");
		if (d != NULL) vse_reach("loaded"); else vse_reach("empty");
		vse_observe(env_live);
		if (LEAK) {
			CK(C_FREE, cyaml_free(&cfg, &zoo_schema, d, top_seq ? n : 0) == CYAML_OK, "cyaml_free succeeds");
			CK(C_FREE, env_live == 0, "cyaml_free releases every allocation of a successful load");
		}
	}
	vse_observe(env_mem_calls);
	return 0;
}
