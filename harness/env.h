/* Environment of the code under test: a model of libyaml (parser and emitter),
 * of the client's allocator and of stdio.  All of it is nondeterministic
 * within its contract; see env.c. */
#ifndef ENV_H
#define ENV_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdarg.h>
#include <yaml.h>
#include "cyaml/cyaml.h"
#include "vse.h"

#ifndef ENV_MAXEV
#define ENV_MAXEV 64
#endif
#ifndef ENV_TXT
#define ENV_TXT 48
#endif

/* ---- events handed to the loader (in the order they were consumed) ------ */
struct env_ev {
	yaml_event_type_t type;
	char txt[ENV_TXT];     /* scalar text (NUL terminated), or alias name */
	unsigned len;          /* concrete upper bound on the text's length */
	unsigned short anchor; /* 0, or the anchor's one character name */
	yaml_scalar_style_t style;
};
extern struct env_ev env_in[ENV_MAXEV];
extern int env_nin;             /* events handed out so far */
extern bool env_in_done;        /* stream end was handed out */
extern bool env_in_failed;      /* the parser reported an error */

/* next-event generator: fills *e; called once per yaml_parser_parse().
 * Returns false to make the parser fail. */
extern bool (*env_next_event)(struct env_ev *e);

/* generic grammar driven generator */
struct env_gen {
	unsigned max_events;   /* value events (after document start) */
	unsigned max_depth;
	unsigned txt_len;      /* max scalar length */
	unsigned docs;         /* documents in the stream (>= 1) */
	unsigned anchors;      /* number of anchor names in use (0: none) */
	bool scalar_keys_only; /* mapping keys are scalars */
	bool allow_scalar, allow_seq, allow_map;
	bool empty_stream;     /* stream may hold no document at all */
	void (*text)(struct env_ev *e, bool is_key, unsigned depth); /* fills scalar text */
};
extern struct env_gen env_gen;
bool env_gen_event(struct env_ev *e);
void env_text_symbolic(struct env_ev *e, unsigned maxlen); /* ASCII, any length <= maxlen */
void env_set_text(struct env_ev *e, const char *s);

/* scripted generator: plays env_script[] */
bool env_script_event(struct env_ev *e);
extern struct env_ev env_script[ENV_MAXEV];
extern double (*env_strtod_model)(const char *s, char **end);
extern int env_nscript;
void sc_start(void);                       /* stream start, document start */
void sc_end(void);                         /* document end, stream end */
struct env_ev *sc_scalar(const char *s);
struct env_ev *sc_type(yaml_event_type_t t);
struct env_ev *sc_alias(unsigned name);
#define sc_map() sc_type(YAML_MAPPING_START_EVENT)
#define sc_mapend() sc_type(YAML_MAPPING_END_EVENT)
#define sc_seq() sc_type(YAML_SEQUENCE_START_EVENT)
#define sc_seqend() sc_type(YAML_SEQUENCE_END_EVENT)
struct env_ev *sc_sym(unsigned maxlen);    /* scalar with symbolic ASCII text */

/* ---- events emitted by the saver ---------------------------------------- */
struct env_out {
	yaml_event_type_t type;
	char txt[ENV_TXT];
	unsigned len;
	int style;
	bool implicit, quoted_implicit;
	bool has_tag;
	bool has_anchor;
	char tag[32];
};
extern struct env_out env_out[ENV_MAXEV];
extern int env_nout;
extern bool env_emit_failed;

/* ---- fault schedule ------------------------------------------------------ */
extern bool env_may_oom;        /* the client's allocator may fail (once, at any call) */
extern bool env_may_oom_repeat; /* ... and keeps failing from there on */
extern bool env_parse_may_fail; /* the parser may fail at any event */
extern bool env_init_may_fail;  /* parser/emitter initialisation may fail */
extern bool env_emit_may_fail;  /* event initialisation / emission / flush may fail */
extern bool env_io_may_fail;    /* fopen / fclose may fail */
extern bool env_oom_hit, env_close_failed, env_open_failed;
extern bool env_null_problem;   /* a failing libyaml gives no reason (as when out of memory) */
extern unsigned env_faults;     /* number of faults injected so far */

/* ---- ledger -------------------------------------------------------------- */
extern int env_live;            /* live client allocations (mem_fn) */
extern unsigned env_mem_calls;
extern size_t env_alloc_total;
extern int env_parsers, env_emitters, env_files; /* live objects */
extern unsigned env_fopens, env_fcloses;
extern char env_fopen_mode[4];
extern const char *env_fopen_path;
extern unsigned env_logs;
void *env_mem(void *ctx, void *ptr, size_t size);
extern void (*env_log_hook)(cyaml_log_t level, void *ctx, const char *fmt, va_list args);
void env_log(cyaml_log_t level, void *ctx, const char *fmt, va_list args);
void env_reset(void);
void env_again(bool events);
/* sets the current run aside, so that another can run inside it */
struct env_state;
struct env_state *env_suspend(void);
void env_resume(struct env_state *);
/* what the parser and emitter were connected to */
extern const unsigned char *env_input; extern size_t env_input_len; extern bool env_input_file, env_output_file;
/* text the library wrote to a stream */
extern unsigned env_anchor_pad;         /* length of what all anchor names begin with */
#ifndef ENV_TEXT
#define ENV_TEXT 256
#endif
extern char env_text[ENV_TEXT]; extern unsigned env_text_len; extern bool env_text_not_stderr;
/* nothing is left behind: allocations, events, parser, emitter, files */
void env_check_clean(const char *msg);
void env_check_no_libyaml(const char *msg);

/* emitter output for cyaml_save_data: the emitter pushes chunks of these bytes */
#ifndef ENV_CHUNK
#define ENV_CHUNK 8
#endif
extern unsigned env_chunks;              /* number of chunks to push in total */
extern unsigned env_chunk_max;           /* maximum chunk length */
#ifndef ENV_WRITTEN
#define ENV_WRITTEN 256
#endif
extern bool env_chunk_now;              /* every event pushes one chunk of the maximum length */
extern unsigned env_chunk_big;          /* chunks of up to 16 KiB; 2: all but the last of 16 KiB */
extern unsigned char env_written[ENV_WRITTEN];   /* bytes pushed so far */
extern unsigned env_nwritten;
extern bool env_record_events;
extern bool env_forget;                 /* events handed out are not kept (for long documents) */
extern void (*env_emit_hook)(const yaml_event_t *e);  /* takes emitted events instead of recording them */

extern const cyaml_config_t env_cfg;
cyaml_config_t env_config(cyaml_cfg_flags_t flags);
#endif
