// Calls the C interface by the prototypes of its header, and walks its results by the
// structures of its header, into JSON text.
#include "libsnips_nlu.h"
#include <stdio.h>
#include <string.h>
#include <math.h>

enum { PARSE, PARSE_ALT, SLOTS, SLOTS_ALT, INTENTS, PARSE_JSON, PARSE_ALT_JSON, SLOTS_JSON, SLOTS_ALT_JSON, INTENTS_JSON };

int shim_create_dir(const char *path, void **out) {
    return snips_nlu_engine_create_from_dir(path, (const CSnipsNluEngine **)out);
}
int shim_create_zip(const unsigned char *zip, unsigned int size, void **out) {
    return snips_nlu_engine_create_from_zip(zip, size, (const CSnipsNluEngine **)out);
}
int shim_destroy_client(void *client) { return snips_nlu_engine_destroy_client((CSnipsNluEngine *)client); }
int shim_last_error(void **out) { return snips_nlu_engine_get_last_error((const char **)out); }
int shim_version(void **out) { return snips_nlu_engine_get_model_version((const char **)out); }
int shim_destroy_string(void *s) { return snips_nlu_engine_destroy_string((char *)s); }

// a size of -1: no array at all
int shim_call(int op, const void *engine, const char *text, const char *intent, const char *const *white, int nwhite,
              const char *const *black, int nblack, unsigned int intents, unsigned int slots, void **out) {
    const CSnipsNluEngine *e = (const CSnipsNluEngine *)engine;
    // on the heap: an access beyond is seen by the sanitizer
    CStringArray *w = NULL, *b = NULL;
    if (nwhite >= 0) {
        w = malloc(sizeof *w);
        w->data = white;
        w->size = nwhite;
    }
    if (nblack >= 0) {
        b = malloc(sizeof *b);
        b->data = black;
        b->size = nblack;
    }
    int rc = -1;
    switch (op) {
    case PARSE: rc = snips_nlu_engine_run_parse(e, text, w, b, (const CIntentParserResult **)out); break;
    case PARSE_ALT:
        rc = snips_nlu_engine_run_parse_with_alternatives(e, text, w, b, intents, slots, (const CIntentParserResult **)out);
        break;
    case SLOTS: rc = snips_nlu_engine_run_get_slots(e, text, intent, (const CSlotList **)out); break;
    case SLOTS_ALT: rc = snips_nlu_engine_run_get_slots_with_alternatives(e, text, intent, slots, (const CSlotList **)out); break;
    case INTENTS: rc = snips_nlu_engine_run_get_intents(e, text, (const CIntentClassifierResultArray **)out); break;
    case PARSE_JSON: rc = snips_nlu_engine_run_parse_into_json(e, text, w, b, (const char **)out); break;
    case PARSE_ALT_JSON:
        rc = snips_nlu_engine_run_parse_with_alternatives_into_json(e, text, w, b, intents, slots, (const char **)out);
        break;
    case SLOTS_JSON: rc = snips_nlu_engine_run_get_slots_into_json(e, text, intent, (const char **)out); break;
    case SLOTS_ALT_JSON:
        rc = snips_nlu_engine_run_get_slots_with_alternatives_into_json(e, text, intent, slots, (const char **)out);
        break;
    case INTENTS_JSON: rc = snips_nlu_engine_run_get_intents_into_json(e, text, (const char **)out); break;
    }
    free(w);
    free(b);
    if (rc == SNIPS_RESULT_OK) return 0;
    if (rc == SNIPS_RESULT_KO) return 1;
    return 2;
}

int shim_destroy(int op, void *p) {
    switch (op) {
    case PARSE:
    case PARSE_ALT: return snips_nlu_engine_destroy_result((CIntentParserResult *)p);
    case SLOTS:
    case SLOTS_ALT: return snips_nlu_engine_destroy_slots((CSlotList *)p);
    case INTENTS: return snips_nlu_engine_destroy_intent_classifier_results((CIntentClassifierResultArray *)p);
    default: return snips_nlu_engine_destroy_string((char *)p);
    }
}

static void str(FILE *f, const char *s) {
    if (!s) {
        fputs("null", f);
        return;
    }
    fputc('"', f);
    for (const unsigned char *p = (const unsigned char *)s; *p; p++) {
        if (*p == '"' || *p == '\\') fprintf(f, "\\%c", *p);
        else if (*p < 32) fprintf(f, "\\u%04x", *p);
        else fputc(*p, f);
    }
    fputc('"', f);
}
static void num(FILE *f, double d) {
    if (isfinite(d)) fprintf(f, "%.17g", d);
    else fputs("null", f);
}
static void key(FILE *f, const char *k) { fprintf(f, ",\"%s\":", k); }

static const char *GRAINS[] = {"Year", "Quarter", "Month", "Week", "Day", "Hour", "Minute", "Second"};
static void grain(FILE *f, SNIPS_GRAIN g) {
    switch (g) {
    case SNIPS_GRAIN_YEAR: str(f, GRAINS[0]); break;
    case SNIPS_GRAIN_QUARTER: str(f, GRAINS[1]); break;
    case SNIPS_GRAIN_MONTH: str(f, GRAINS[2]); break;
    case SNIPS_GRAIN_WEEK: str(f, GRAINS[3]); break;
    case SNIPS_GRAIN_DAY: str(f, GRAINS[4]); break;
    case SNIPS_GRAIN_HOUR: str(f, GRAINS[5]); break;
    case SNIPS_GRAIN_MINUTE: str(f, GRAINS[6]); break;
    case SNIPS_GRAIN_SECOND: str(f, GRAINS[7]); break;
    default: fprintf(f, "\"grain %d\"", (int)g);
    }
}
static void precision(FILE *f, SNIPS_PRECISION p) {
    if (p == SNIPS_PRECISION_APPROXIMATE) str(f, "Approximate");
    else if (p == SNIPS_PRECISION_EXACT) str(f, "Exact");
    else fprintf(f, "\"precision %d\"", (int)p);
}

static void value(FILE *f, const CSlotValue *v) {
    const char *text = NULL;
    if (!v) {
        fputs("null", f);
        return;
    }
    fputs("{\"kind\":", f);
    switch (v->value_type) {
    case SNIPS_SLOT_VALUE_TYPE_CUSTOM: text = "Custom"; break;
    case SNIPS_SLOT_VALUE_TYPE_MUSICALBUM: text = "MusicAlbum"; break;
    case SNIPS_SLOT_VALUE_TYPE_MUSICARTIST: text = "MusicArtist"; break;
    case SNIPS_SLOT_VALUE_TYPE_MUSICTRACK: text = "MusicTrack"; break;
    case SNIPS_SLOT_VALUE_TYPE_CITY: text = "City"; break;
    case SNIPS_SLOT_VALUE_TYPE_COUNTRY: text = "Country"; break;
    case SNIPS_SLOT_VALUE_TYPE_REGION: text = "Region"; break;
    case SNIPS_SLOT_VALUE_TYPE_NUMBER:
        str(f, "Number");
        key(f, "value");
        num(f, *(const CNumberValue *)v->value);
        break;
    case SNIPS_SLOT_VALUE_TYPE_PERCENTAGE:
        str(f, "Percentage");
        key(f, "value");
        num(f, *(const CPercentageValue *)v->value);
        break;
    case SNIPS_SLOT_VALUE_TYPE_ORDINAL:
        str(f, "Ordinal");
        key(f, "value");
        fprintf(f, "%lld", (long long)*(const COrdinalValue *)v->value);
        break;
    case SNIPS_SLOT_VALUE_TYPE_INSTANTTIME: {
        const CInstantTimeValue *t = v->value;
        str(f, "InstantTime");
        key(f, "value");
        str(f, t->value);
        key(f, "grain");
        grain(f, t->grain);
        key(f, "precision");
        precision(f, t->precision);
        break;
    }
    case SNIPS_SLOT_VALUE_TYPE_TIMEINTERVAL: {
        const CTimeIntervalValue *t = v->value;
        str(f, "TimeInterval");
        key(f, "from");
        str(f, t->from);
        key(f, "to");
        str(f, t->to);
        break;
    }
    case SNIPS_SLOT_VALUE_TYPE_AMOUNTOFMONEY: {
        const CAmountOfMoneyValue *t = v->value;
        str(f, "AmountOfMoney");
        key(f, "value");
        num(f, t->value);
        key(f, "precision");
        precision(f, t->precision);
        key(f, "unit");
        str(f, t->unit);
        break;
    }
    case SNIPS_SLOT_VALUE_TYPE_TEMPERATURE: {
        const CTemperatureValue *t = v->value;
        str(f, "Temperature");
        key(f, "value");
        num(f, t->value);
        key(f, "unit");
        str(f, t->unit);
        break;
    }
    case SNIPS_SLOT_VALUE_TYPE_DURATION: {
        const CDurationValue *t = v->value;
        str(f, "Duration");
        fprintf(f, ",\"years\":%lld,\"quarters\":%lld,\"months\":%lld,\"weeks\":%lld", (long long)t->years,
                (long long)t->quarters, (long long)t->months, (long long)t->weeks);
        fprintf(f, ",\"days\":%lld,\"hours\":%lld,\"minutes\":%lld,\"seconds\":%lld", (long long)t->days,
                (long long)t->hours, (long long)t->minutes, (long long)t->seconds);
        key(f, "precision");
        precision(f, t->precision);
        break;
    }
    default: fprintf(f, "\"type %d\"", (int)v->value_type);
    }
    if (text) {
        str(f, text);
        key(f, "value");
        str(f, (const char *)v->value);
    }
    fputc('}', f);
}

static void slot(FILE *f, const CSlot *s) {
    fputs("{\"rawValue\":", f);
    str(f, s->raw_value);
    key(f, "value");
    value(f, s->value);
    key(f, "alternatives");
    if (!s->alternatives) fputs("null", f);
    else {
        fputc('[', f);
        for (int i = 0; i < s->alternatives->size; i++) {
            if (i) fputc(',', f);
            value(f, &s->alternatives->slot_values[i]);
        }
        fputc(']', f);
    }
    key(f, "range");
    fprintf(f, "{\"start\":%d,\"end\":%d}", (int)s->range_start, (int)s->range_end);
    key(f, "entity");
    str(f, s->entity);
    key(f, "slotName");
    str(f, s->slot_name);
    if (s->confidence_score != -1.0f) {
        key(f, "confidenceScore");
        num(f, s->confidence_score);
    }
    fputc('}', f);
}
static void slot_list(FILE *f, const CSlotList *l) {
    if (!l) {
        fputs("null", f);
        return;
    }
    fputc('[', f);
    for (int i = 0; i < l->size; i++) {
        if (i) fputc(',', f);
        slot(f, &l->slots[i]);
    }
    fputc(']', f);
}
static void intent(FILE *f, const CIntentClassifierResult *r) {
    if (!r) {
        fputs("null", f);
        return;
    }
    fputs("{\"intentName\":", f);
    str(f, r->intent_name);
    key(f, "confidenceScore");
    num(f, r->confidence_score);
    fputc('}', f);
}

// the result as JSON text, to be given to shim_free
char *shim_dump(int op, const void *p) {
    char *buffer = NULL;
    size_t size = 0;
    FILE *f = open_memstream(&buffer, &size);
    if (op == PARSE || op == PARSE_ALT) {
        const CIntentParserResult *r = p;
        fputs("{\"input\":", f);
        str(f, r->input);
        key(f, "intent");
        intent(f, r->intent);
        key(f, "slots");
        slot_list(f, r->slots);
        key(f, "alternatives");
        if (!r->alternatives) fputs("null", f);
        else {
            fputc('[', f);
            for (int i = 0; i < r->alternatives->size; i++) {
                const CIntentParserAlternative *a = &r->alternatives->intent_parser_alternatives[i];
                if (i) fputc(',', f);
                fputs("{\"intent\":", f);
                intent(f, a->intent);
                key(f, "slots");
                slot_list(f, a->slots);
                fputc('}', f);
            }
            fputc(']', f);
        }
        fputc('}', f);
    } else if (op == SLOTS || op == SLOTS_ALT) {
        slot_list(f, p);
    } else if (op == INTENTS) {
        const CIntentClassifierResultArray *a = p;
        fputc('[', f);
        for (int i = 0; i < a->size; i++) {
            if (i) fputc(',', f);
            intent(f, &a->intent_classifier_results[i]);
        }
        fputc(']', f);
    } else {
        fputs((const char *)p, f);
    }
    fclose(f);
    return buffer;
}
void shim_free(char *p) { free(p); }
