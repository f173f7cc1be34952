/* Saving, differentially: any client data of a zoo schema (within the
 * generator's bounds), optionally with one injected fault.
 *
 * CFG    configuration flags            FILEAPI  1: cyaml_save_file
 * FAULT  1: one allocation, emitter or event failure
 * CHUNKS output chunks pushed by the emitter (cyaml_save_data)
 * RT     1: load the emitted document again and compare */
#include "zoo.h"
#include "gen.h"
#include "ref.h"
#include "refsave.h"
#ifndef CFG
#define CFG 0
#endif
#ifndef FAULT
#define FAULT 0
#endif
#ifndef CHUNKS
#define CHUNKS 0
#endif
#ifndef RT
#define RT 0
#endif
#ifndef FILEAPI
#define FILEAPI 0
#endif

static unsigned gen_calls; static size_t gen_total;
int harness_main(void)
{
	cyaml_config_t cfg = env_config((CFG));
	cyaml_err_t err, want;
	static char sentinel;
	char *out = &sentinel; size_t len = 77;
	unsigned n = 0;
	uint8_t *data;
	int live;
	bool top_seq = zoo_schema.type == CYAML_SEQUENCE;

	gen_cfg = &cfg;
	data = gen_top(&zoo_schema, &n);
	live = env_live;
	gen_calls = env_mem_calls; gen_total = env_alloc_total;
	if (FAULT) { env_may_oom = env_may_oom_repeat = true; env_emit_may_fail = true; env_init_may_fail = true; if (FILEAPI) env_io_may_fail = true; }
	env_chunks = CHUNKS;
#ifdef BIGCHUNK
	env_chunk_big = BIGCHUNK;
#endif

	if (FILEAPI) err = cyaml_save_file("f", &cfg, &zoo_schema, data, top_seq ? n : 0);
	else err = cyaml_save_data(&out, &len, &cfg, &zoo_schema, data, top_seq ? n : 0);
	vse_observe(err); vse_observe((uint64_t)env_nout);
#if FILEAPI
	if (env_open_failed) { CK(C_FILE, err == CYAML_ERR_FILE_OPEN, "a file that cannot be opened is reported"); CK(C_FILE, env_nout == 0, "a file that cannot be opened has no further effect"); vse_reach("noopen"); }
	else CK(C_FILE, env_fopens == env_fcloses, "the file is closed exactly once");
	CK(C_FILE, err != CYAML_OK || env_output_file, "the file is what is written");
#endif
#ifdef LOG
	{   /* the same save without logging */
		static struct env_out o1[ENV_MAXEV]; char *out2 = &sentinel; size_t len2 = 77; cyaml_err_t err2; int n1 = env_nout; bool eq = true; unsigned calls = env_mem_calls; size_t total = env_alloc_total;
		cyaml_config_t c2 = cfg;
		c2.log_fn = NULL; c2.log_ctx = NULL; c2.log_level = CYAML_LOG_ERROR;
		memcpy(o1, env_out, sizeof o1);
		env_mem_calls = 0;
		env_again(false);
		err2 = cyaml_save_data(&out2, &len2, &c2, &zoo_schema, data, top_seq ? n : 0);
		vse_check(err == err2 && len == len2 && (out == &sentinel) == (out2 == &sentinel), "logging does not change the result");
		vse_check(calls - gen_calls == env_mem_calls && total - gen_total == env_alloc_total, "logging does not change the allocations");
		vse_check(n1 == env_nout, "logging does not change what is emitted");
		for (int i = 0; i < n1; i++) { eq &= o1[i].type == env_out[i].type && o1[i].len == env_out[i].len && o1[i].style == env_out[i].style; for (unsigned k = 0; k < o1[i].len; k++) eq &= o1[i].txt[k] == env_out[i].txt[k]; }
		vse_check(eq, "logging does not change what is emitted");
		vse_reach(env_faults ? "fault" : err == CYAML_OK ? "saved" : "rejected");
		vse_end();
	}
#endif
	env_may_oom = env_may_oom_repeat = env_emit_may_fail = false;
	if ((CATS) & C_SFAIL) env_check_no_libyaml("no emitter, event or file is left behind");
	gen_check_unmodified("saving does not modify the client's data");

	if (env_close_failed && (data == NULL || (top_seq && n == 0))) env_faults = 0;
	if (!env_faults && (data == NULL || (top_seq && n == 0))) {
		CK(C_SAVE, err == (data == NULL && !top_seq ? CYAML_ERR_BAD_PARAM_NULL_DATA : CYAML_ERR_BAD_PARAM_SEQ_COUNT) && env_nout == 0, "bad top level data is refused before anything is written");
		CK(C_SFAIL, env_live == live, "a refused save leaks nothing");
		vse_end();
	}
	want = data == NULL || (top_seq && n == 0) ? CYAML_ERR_BAD_PARAM_NULL_DATA : !((CATS) & C_SAVE) ? err : ref_save(&cfg, &zoo_schema, data, n, err == CYAML_OK);
	if (env_close_failed && want != CYAML_OK) env_faults = 0;   /* a refused save reports why it was refused */
	if (env_faults) {
		CK(C_SFAIL, err != CYAML_OK, "a failing save reports an error");
		if (env_oom_hit) { CK(C_SFAIL, err == CYAML_ERR_OOM, "an allocation failure is reported as out of memory"); vse_reach("oom"); }
		else CK(C_SFAIL, err == CYAML_ERR_LIBYAML_EMITTER || err == CYAML_ERR_LIBYAML_EVENT_INIT || err == CYAML_ERR_LIBYAML_EMITTER_INIT || (FILEAPI && (err == CYAML_ERR_FILE_OPEN || err == CYAML_ERR_LIBYAML_EMITTER)), "the failure is reported with its error code");
		vse_reach("fault");
	} else if ((CATS) & C_SAVE) vse_check(err == want, want == CYAML_OK ? "data that fits the schema is saved" : "the documented error is reported");
	if (err != CYAML_OK) {
		CK(C_SFAIL, out == &sentinel && len == 77, "a failed save does not touch the caller's buffer pointer and length");
		CK(C_SFAIL, env_live == live, "a failed save leaks nothing");
		vse_reach("rejected");
	} else if (!FILEAPI) {
		bool eq = true;
		CK(C_SFAIL, len == env_nwritten, "the length is the number of bytes the emitter produced");
		for (unsigned i = 0; i < env_nwritten; i++) eq &= (unsigned char)out[i] == env_written[i];
		CK(C_SFAIL, eq, "the buffer is exactly the emitter's output");
		if (env_nwritten) { env_mem(NULL, out, 0); vse_reach("output"); }
		CK(C_SFAIL, env_live == live, "the buffer is the only new allocation and is the client's to free");
		vse_reach("saved");
	} else {
		CK(C_SFAIL, env_live == live, "saving to a file leaves no allocation");
		CK(C_FILE, env_fopens == 1 && env_fcloses == 1 && env_fopen_mode[0] == 'w', "the file is opened for writing and closed once");
		vse_reach("saved");
	}
#if RT
	if (ZOO != 14) CK(C_RT, err == CYAML_OK, "data that fits the schema is saved");   /* 14 also holds what cannot be saved */
	if (err == CYAML_OK) {
		uint8_t *d2 = NULL; unsigned n2 = 0; uint8_t *d1 = data;
		if (env_nout > ENV_MAXEV) vse_fail("harness: script too long");
		env_nscript = 0;
		for (int i = 0; i < env_nout; i++) {
			struct env_ev *e = sc_type(env_out[i].type);
			memcpy(e->txt, env_out[i].txt, ENV_TXT); e->len = env_out[i].len;
		}
		env_reset();
		env_next_event = env_script_event;
		err = cyaml_load_data((const uint8_t *)"", 0, &cfg, &zoo_schema, (cyaml_data_t **)&d2, top_seq ? &n2 : NULL);
		CK(C_RT, err == CYAML_OK, "what was saved can be loaded again");
		if (top_seq) CK(C_RT, n2 == n, "the top level count survives");
		same_value(C_RT, &zoo_schema, (uint8_t *)&d1, (uint8_t *)&d2, n, true);
		cyaml_free(&cfg, &zoo_schema, d2, top_seq ? n2 : 0);
		CK(C_FREE, env_live == live, "the reloaded data is freed completely");
		vse_reach("roundtrip");
	}
#endif
	if (gen_entries > 1) vse_reach("entries");
	if (gen_strs) vse_reach("strings");
	CK(C_FREE, cyaml_free(&cfg, &zoo_schema, data, top_seq ? n : 0) == CYAML_OK && env_live == 0, "cyaml_free releases exactly the client's data");
	return 0;
}
