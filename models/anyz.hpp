// Any protocol message: requests and responses of every type with any of their optional parts,
// odd values included.  (Damaged encodings are left out: the decoder of YAZ does not survive them.)
#pragma once
#include "zkit.hpp"
#include <yaz/sortspec.h>
#include <yaz/oid_db.h>
namespace anyz {
using pbt::Ctx;
struct Gen {
    Ctx &x; ODR o; bool odd;        // odd: hostile values too
    int depth = 0;
    Gen(Ctx &c, ODR od, bool h) : x(c), o(od), odd(h) {}
    template <class T> T *make() { T *p = (T *) odr_malloc(o, sizeof(T)); memset(p, 0, sizeof(T)); return p; }
    bool some() { return x.coin(); }
    bool rare() { return x.chance(1, 4); }
    char *dup(const std::string &s) { return odr_strdup(o, s.c_str()); }
    std::string text()
    {
        if (odd && x.chance(1, 5)) return x.pick({"", "\n", "a\nb", "a b", "%s%n", "\"", "*", "+", "a+b", "a,b", ":", "/", "h:1/x", "u/p", "\xc3\xa6", "\xff\xfe", "<a>&", "]]>", "0", "-1", "\t", "\r\n", "..", "@and"});
        if (odd && x.chance(1, 60)) return std::string(x.range(200, 6000), 'x');
        return x.pick({"Default", "A", "B", "D1", "d", "F", "usmarc", "s1", "default", "x", "term", "http://a/b"});
    }
    char *str() { return dup(text()); }
    char *optstr() { return some() ? str() : 0; }
    long num()
    {
        if (odd && x.chance(1, 6)) { switch (x.range(0, 8)) { case 0: return -1; case 1: return 2147483647L; case 2: return 2147483648L; case 3: return -2147483647L - 1; case 4: return 9223372036854775807L; case 5: return -9223372036854775807L - 1; case 6: return 4294967296L; case 7: return 65536; default: return -x.range(1, 50); } }
        return x.range(0, 12);
    }
    Odr_int *in() { return odr_intdup(o, num()); }
    Odr_int *optin() { return some() ? in() : 0; }
    Odr_bool *boolean() { return odr_booldup(o, x.coin()); }
    Odr_bool *optbool() { return some() ? boolean() : 0; }
    Odr_null *null() { return odr_nullval(); }
    Odr_oct *oct() { std::string t = text(); return odr_create_Odr_oct(o, t.data(), (int) t.size()); }
    Z_ReferenceId *ref() { return rare() ? oct() : 0; }
    Odr_oid *oid()
    {
        switch (x.range(0, 7)) { case 0: return odr_oiddup(o, yaz_oid_recsyn_usmarc); case 1: return odr_oiddup(o, yaz_oid_recsyn_xml); case 2: return odr_oiddup(o, yaz_oid_recsyn_sutrs); case 3: return odr_oiddup(o, yaz_oid_recsyn_opac); case 4: return odr_oiddup(o, yaz_oid_attset_bib_1); case 5: return odr_oiddup(o, yaz_oid_diagset_bib_1); case 6: return odr_oiddup(o, yaz_oid_recsyn_grs_1); default: { Odr_oid *v = (Odr_oid *) odr_malloc(o, 8 * sizeof(Odr_oid)); v[0] = 1; v[1] = 2; int n = x.range(2, 6); for (int i = 2; i < n; i++) v[i] = x.range(0, odd ? 32000 : 20); v[n] = -1; return v; } }
    }
    Odr_oid *optoid() { return some() ? oid() : 0; }
    template <class T> void list(int *n, T ***v, const std::function<T *()> &f, int lo, int hi) { int k = x.range(lo, hi); *n = k; *v = (T **) odr_malloc(o, (k + 1) * sizeof(T *)); for (int i = 0; i < k; i++) (*v)[i] = f(); (*v)[k] = 0; }
    void names(int *n, char ***v, int lo, int hi) { list<char>(n, v, [&] { return str(); }, lo, hi); }
    Z_External *external()
    {
        std::string b = x.pick({"", "<r><k>1</k></r>", "<r", "00065nam a2200049 a 4500001000200000245000600002\x1e" "1\x1e" "10\x1f" "ab\x1e\x1d", "text", "00000", "99999nam a22"});
        if (depth > 3) return z_ext_record_oid(o, yaz_oid_recsyn_sutrs, "x", 1);
        depth++; Z_External *e = 0;
        switch (x.range(0, 7)) {
        case 0: e = z_ext_record_oid(o, oid(), b.data(), (int) b.size()); break;
        case 1: e = z_ext_record_oid(o, yaz_oid_recsyn_xml, b.data(), (int) b.size()); break;
        case 2: e = z_ext_record_oid(o, yaz_oid_recsyn_usmarc, b.data(), (int) b.size()); break;
        case 3: e = make<Z_External>(); e->direct_reference = odr_oiddup(o, yaz_oid_recsyn_sutrs); e->which = Z_External_sutrs; e->u.sutrs = (Z_SUTRS *) odr_create_Odr_oct(o, b.data(), (int) b.size()); break;
        case 4: { Z_OPACRecord *r = make<Z_OPACRecord>(); if (some()) r->bibliographicRecord = external(); e = make<Z_External>(); e->direct_reference = odr_oiddup(o, yaz_oid_recsyn_opac); e->which = Z_External_OPAC; e->u.opac = r; break; }
        case 5: e = make<Z_External>(); e->direct_reference = odr_oiddup(o, yaz_oid_userinfo_userinfo_1); e->which = Z_External_userInfo1; e->u.userInfo1 = info(); if (!e->u.userInfo1) e->u.userInfo1 = list_info(1); break;
        case 6: { e = make<Z_External>(); e->direct_reference = odr_oiddup(o, yaz_oid_diagset_diag_1); e->which = Z_External_diag1; Z_DiagnosticFormat *f = e->u.diag1 = make<Z_DiagnosticFormat>(); int k = x.range(0, 2); f->num = k; f->elements = (Z_DiagnosticFormat_s **) odr_malloc(o, (k + 1) * sizeof(void *)); for (int i = 0; i < k; i++) { Z_DiagnosticFormat_s *s = f->elements[i] = make<Z_DiagnosticFormat_s>(); if (some()) { s->which = Z_DiagnosticFormat_s_defaultDiagRec; s->u.defaultDiagRec = diag(); } else { s->which = Z_DiagnosticFormat_s_explicitDiagnostic; Z_DiagFormat *d = s->u.explicitDiagnostic = make<Z_DiagFormat>(); Z_TooMany *t = make<Z_TooMany>(); t->tooManyWhat = in(); d->which = Z_DiagFormat_tooMany; d->u.tooMany = t; } if (rare()) s->message = str(); } break; }
        default: e = make<Z_External>(); if (some()) e->direct_reference = oid(); if (rare()) e->indirect_reference = odr_intdup(o, x.range(0, 9)); if (rare()) e->descriptor = str(); e->which = some() ? Z_External_octet : Z_External_single; if (e->which == Z_External_octet) e->u.octet_aligned = odr_create_Odr_oct(o, b.data(), (int) b.size()); else { static const char any[] = "\x04\x02xy"; e->u.single_ASN1_type = odr_create_Odr_oct(o, any, 4); } break;
        }
        depth--; return e;
    }
    Z_OtherInformation *list_info(int k)
    {
        Z_OtherInformation *l = make<Z_OtherInformation>(); l->num_elements = k; l->list = (Z_OtherInformationUnit **) odr_malloc(o, (k + 1) * sizeof(void *));
        for (int i = 0; i < k; i++) {
            Z_OtherInformationUnit *u = l->list[i] = make<Z_OtherInformationUnit>();
            if (some()) { u->category = make<Z_InfoCategory>(); u->category->categoryTypeId = some() ? odr_oiddup(o, some() ? yaz_oid_userinfo_proxy : yaz_oid_userinfo_client_ip) : oid(); u->category->categoryValue = odr_intdup(o, x.range(0, 3)); }
            switch (depth > 2 ? 0 : x.range(0, 3)) { case 0: u->which = Z_OtherInfo_characterInfo; u->information.characterInfo = str(); break; case 1: u->which = Z_OtherInfo_binaryInfo; u->information.binaryInfo = oct(); break; case 2: u->which = Z_OtherInfo_oid; u->information.oid = oid(); break; default: depth++; u->which = Z_OtherInfo_externallyDefinedInfo; u->information.externallyDefinedInfo = external(); depth--; }
        }
        return l;
    }
    Z_OtherInformation *info() { return rare() ? list_info(x.range(1, 3)) : 0; }
    Z_DefaultDiagFormat *diag()
    {
        Z_DefaultDiagFormat *d = make<Z_DefaultDiagFormat>(); d->diagnosticSetId = odr_oiddup(o, some() ? yaz_oid_diagset_bib_1 : yaz_oid_recsyn_xml); d->condition = odr_intdup(o, x.pick({1, 3, 14, 101, 108, 109, 235, 0, 12345}));
        if (some()) { d->which = Z_DefaultDiagFormat_v2Addinfo; d->u.v2Addinfo = str(); } else { d->which = Z_DefaultDiagFormat_v3Addinfo; d->u.v3Addinfo = str(); }
        return d;
    }
    Z_DiagRec *diagrec() { Z_DiagRec *d = make<Z_DiagRec>(); if (!rare()) { d->which = Z_DiagRec_defaultFormat; d->u.defaultFormat = diag(); } else { d->which = Z_DiagRec_externallyDefined; d->u.externallyDefined = external(); } return d; }
    void diags(int *n, Z_DiagRec ***v) { if (rare()) list<Z_DiagRec>(n, v, [&] { return diagrec(); }, 0, 2); }
    Z_NamePlusRecord *namerec()
    {
        Z_NamePlusRecord *n = make<Z_NamePlusRecord>(); n->databaseName = optstr();
        switch (x.weighted({8, 2, 1})) { case 0: n->which = Z_NamePlusRecord_databaseRecord; n->u.databaseRecord = external(); break; case 1: n->which = Z_NamePlusRecord_surrogateDiagnostic; n->u.surrogateDiagnostic = diagrec(); break; default: { n->which = Z_NamePlusRecord_intermediateFragment; Z_FragmentSyntax *f = n->u.intermediateFragment = make<Z_FragmentSyntax>(); f->which = Z_FragmentSyntax_notExternallyTagged; f->u.notExternallyTagged = oct(); } }
        return n;
    }
    Z_Records *recs()
    {
        if (!some()) return 0; Z_Records *r = make<Z_Records>();
        switch (x.weighted({6, 2, 2})) {
        case 0: { r->which = Z_Records_DBOSD; Z_NamePlusRecordList *l = r->u.databaseOrSurDiagnostics = make<Z_NamePlusRecordList>(); list<Z_NamePlusRecord>(&l->num_records, &l->records, [&] { return namerec(); }, 0, x.chance(1, 8) ? 12 : 3); break; }
        case 1: r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = diag(); break;
        default: { r->which = Z_Records_multipleNSD; Z_DiagRecs *l = r->u.multipleNonSurDiagnostics = make<Z_DiagRecs>(); list<Z_DiagRec>(&l->num_diagRecs, &l->diagRecs, [&] { return diagrec(); }, 0, 3); } }
        return r;
    }
    Z_Term *term()
    {
        Z_Term *t = make<Z_Term>(); switch (x.weighted({8, 2, 1, 1, 1})) { case 0: t->which = Z_Term_general; t->u.general = oct(); break; case 1: t->which = Z_Term_characterString; t->u.characterString = str(); break; case 2: t->which = Z_Term_numeric; t->u.numeric = in(); break; case 3: t->which = Z_Term_null; t->u.null = null(); break; default: t->which = Z_Term_oid; t->u.oid = oid(); } return t;
    }
    Z_AttributeList *attrs()
    {
        Z_AttributeList *l = make<Z_AttributeList>(); list<Z_AttributeElement>(&l->num_attributes, &l->attributes, [&] { Z_AttributeElement *e = make<Z_AttributeElement>(); if (rare()) e->attributeSet = oid(); e->attributeType = odr_intdup(o, x.range(1, 6)); if (!rare()) { e->which = Z_AttributeValue_numeric; e->value.numeric = odr_intdup(o, x.pick({1, 3, 4, 7, 1016, 100, 0})); } else { e->which = Z_AttributeValue_complex; Z_ComplexAttribute *c = e->value.complex = make<Z_ComplexAttribute>(); list<Z_StringOrNumeric>(&c->num_list, &c->list, [&] { Z_StringOrNumeric *s = make<Z_StringOrNumeric>(); if (some()) { s->which = Z_StringOrNumeric_string; s->u.string = str(); } else { s->which = Z_StringOrNumeric_numeric; s->u.numeric = in(); } return s; }, 0, 2); } return e; }, 0, 3); return l;
    }
    Z_AttributesPlusTerm *apt() { Z_AttributesPlusTerm *a = make<Z_AttributesPlusTerm>(); a->attributes = attrs(); a->term = term(); return a; }
    Z_RPNStructure *rpn(int d)
    {
        Z_RPNStructure *s = make<Z_RPNStructure>();
        if (d <= 0 || x.chance(2, 5)) { s->which = Z_RPNStructure_simple; Z_Operand *p = s->u.simple = make<Z_Operand>(); switch (x.weighted({8, 2, 1})) { case 0: p->which = Z_Operand_APT; p->u.attributesPlusTerm = apt(); break; case 1: p->which = Z_Operand_resultSetId; p->u.resultSetId = str(); break; default: { p->which = Z_Operand_resultAttr; Z_ResultSetPlusAttributes *r = p->u.resultAttr = make<Z_ResultSetPlusAttributes>(); r->resultSet = str(); r->attributes = attrs(); } } }
        else { s->which = Z_RPNStructure_complex; Z_Complex *c = s->u.complex = make<Z_Complex>(); c->s1 = rpn(d - 1); c->s2 = rpn(d - 1); Z_Operator *q = c->roperator = make<Z_Operator>(); switch (x.range(0, 3)) { case 0: q->which = Z_Operator_and; q->u.op_and = null(); break; case 1: q->which = Z_Operator_or; q->u.op_or = null(); break; case 2: q->which = Z_Operator_and_not; q->u.and_not = null(); break; default: { q->which = Z_Operator_prox; Z_ProximityOperator *p = q->u.prox = make<Z_ProximityOperator>(); p->exclusion = optbool(); p->distance = in(); p->ordered = boolean(); p->relationType = odr_intdup(o, x.range(1, 6)); p->which = Z_ProximityOperator_known; p->u.known = odr_intdup(o, x.range(1, 9)); } } }
        return s;
    }
    Z_Query *query()
    {
        Z_Query *q = make<Z_Query>();
        switch (x.weighted({8, 1, 1, 3, 1})) {
        case 0: { q->which = Z_Query_type_1; Z_RPNQuery *r = q->u.type_1 = make<Z_RPNQuery>(); r->attributeSetId = odr_oiddup(o, some() ? yaz_oid_attset_bib_1 : yaz_oid_recsyn_xml); r->RPNStructure = rpn(x.range(0, 4)); break; }
        case 1: { q->which = Z_Query_type_101; Z_RPNQuery *r = q->u.type_101 = make<Z_RPNQuery>(); r->attributeSetId = oid(); r->RPNStructure = rpn(2); break; }
        case 2: q->which = Z_Query_type_2; q->u.type_2 = oct(); break;
        case 3: { q->which = Z_Query_type_104; Z_External *e = q->u.type_104 = make<Z_External>(); e->direct_reference = odr_oiddup(o, yaz_oid_userinfo_cql); e->which = Z_External_CQL; e->u.cql = dup(x.pick({"a", "a and b", "title=x", "a and", "(", "", "a sortby b", "cql.serverChoice = \"x y\"", "x prox y", "\""})); if (rare()) q->u.type_104 = external(); break; }
        default: q->which = Z_Query_type_100; q->u.type_100 = oct(); }
        return q;
    }
    Z_ElementSetNames *esn()
    {
        Z_ElementSetNames *e = make<Z_ElementSetNames>(); if (!rare()) { e->which = Z_ElementSetNames_generic; e->u.generic = dup(x.pick({"F", "B", "", "FF", "zz"})); return e; }
        e->which = Z_ElementSetNames_databaseSpecific; Z_DatabaseSpecific *d = e->u.databaseSpecific = make<Z_DatabaseSpecific>(); list<Z_DatabaseSpecificUnit>(&d->num, &d->elements, [&] { Z_DatabaseSpecificUnit *u = make<Z_DatabaseSpecificUnit>(); u->dbName = str(); u->esn = str(); return u; }, 0, 2); return e;
    }
    Z_Specification *spec()
    {
        Z_Specification *s = make<Z_Specification>(); if (some()) { s->which = Z_Schema_uri; s->schema.uri = str(); } else { s->which = Z_Schema_oid; s->schema.oid = oid(); }
        if (some()) { s->elementSpec = make<Z_ElementSpec>(); if (some()) { s->elementSpec->which = Z_ElementSpec_elementSetName; s->elementSpec->u.elementSetName = str(); } else { s->elementSpec->which = Z_ElementSpec_externalSpec; s->elementSpec->u.externalSpec = external(); } } return s;
    }
    Z_RecordComposition *comp()
    {
        Z_RecordComposition *c = make<Z_RecordComposition>(); if (some()) { c->which = Z_RecordComp_simple; c->u.simple = esn(); return c; }
        c->which = Z_RecordComp_complex; Z_CompSpec *s = c->u.complex = make<Z_CompSpec>(); s->selectAlternativeSyntax = boolean(); if (some()) s->generic = spec(); if (rare()) list<Z_DbSpecific>(&s->num_dbSpecific, &s->dbSpecific, [&] { Z_DbSpecific *d = make<Z_DbSpecific>(); d->db = str(); d->spec = spec(); return d; }, 0, 2); if (rare()) list<Odr_oid>(&s->num_recordSyntax, &s->recordSyntax, [&] { return oid(); }, 0, 2); return c;
    }
    Odr_bitmask *mask() { Odr_bitmask *m = (Odr_bitmask *) odr_malloc(o, sizeof(Odr_bitmask)); ODR_MASK_ZERO(m); for (int i = 0; i < 16; i++) if (some()) ODR_MASK_SET(m, i); if (some()) { ODR_MASK_SET(m, 0); ODR_MASK_SET(m, 1); ODR_MASK_SET(m, 14); } return m; }
    Z_IdAuthentication *auth()
    {
        if (!some()) return 0; Z_IdAuthentication *a = make<Z_IdAuthentication>();
        switch (x.range(0, 3)) { case 0: a->which = Z_IdAuthentication_open; a->u.open = dup(x.pick({"u/p", "u", "/", "", "u/", "nobody/x"})); if (rare()) a->u.open = str(); break; case 1: { a->which = Z_IdAuthentication_idPass; Z_IdPass *p = a->u.idPass = make<Z_IdPass>(); if (some()) p->userId = dup("u"); else p->userId = optstr(); p->groupId = rare() ? str() : 0; if (some()) p->password = dup("p"); else p->password = optstr(); break; } case 2: a->which = Z_IdAuthentication_anonymous; a->u.anonymous = null(); break; default: a->which = Z_IdAuthentication_other; a->u.other = external(); }
        return a;
    }
    Z_APDU *apdu(int w)
    {
        Z_APDU *a = make<Z_APDU>(); a->which = w;
        switch (w) {
        case Z_APDU_initRequest: { Z_InitRequest *r = a->u.initRequest = make<Z_InitRequest>(); r->referenceId = ref(); r->protocolVersion = mask(); r->options = mask(); r->preferredMessageSize = in(); r->maximumRecordSize = in(); r->idAuthentication = auth(); r->implementationId = optstr(); r->implementationName = optstr(); r->implementationVersion = optstr(); if (rare()) r->userInformationField = external(); r->otherInfo = info(); if (x.chance(1, 3)) { std::vector<std::string> v; for (int n = x.range(1, 2); n > 0; n--) v.push_back(odd && rare() ? text() : x.pick({"h1:1/X", "h2/Y", "h3:9/D1+D2", "h4"})); zk::set_vhosts(o, &r->otherInfo, v); } break; }
        case Z_APDU_initResponse: { Z_InitResponse *r = a->u.initResponse = make<Z_InitResponse>(); r->referenceId = ref(); r->protocolVersion = mask(); r->options = mask(); r->preferredMessageSize = in(); r->maximumRecordSize = in(); r->result = odr_booldup(o, !rare()); r->implementationId = optstr(); r->implementationName = optstr(); r->implementationVersion = optstr(); if (rare()) r->userInformationField = external(); r->otherInfo = info(); break; }
        case Z_APDU_searchRequest: { Z_SearchRequest *r = a->u.searchRequest = make<Z_SearchRequest>(); r->referenceId = ref(); r->smallSetUpperBound = in(); r->largeSetLowerBound = in(); r->mediumSetPresentNumber = in(); r->replaceIndicator = odr_booldup(o, !rare()); r->resultSetName = dup(x.pick({"default", "default", "s1"})); if (rare()) r->resultSetName = str(); names(&r->num_databaseNames, &r->databaseNames, odd ? 0 : 1, 3); if (rare()) r->smallSetElementSetNames = esn(); if (rare()) r->mediumSetElementSetNames = esn(); r->preferredRecordSyntax = optoid(); r->query = query(); r->additionalSearchInfo = info(); r->otherInfo = info(); break; }
        case Z_APDU_searchResponse: { Z_SearchResponse *r = a->u.searchResponse = make<Z_SearchResponse>(); r->referenceId = ref(); r->resultCount = in(); r->numberOfRecordsReturned = in(); r->nextResultSetPosition = in(); r->searchStatus = odr_booldup(o, !rare()); if (rare()) r->resultSetStatus = in(); if (rare()) r->presentStatus = in(); r->records = recs(); r->additionalSearchInfo = info(); r->otherInfo = info(); break; }
        case Z_APDU_presentRequest: { Z_PresentRequest *r = a->u.presentRequest = make<Z_PresentRequest>(); r->referenceId = ref(); r->resultSetId = dup(x.pick({"default", "default", "s1"})); if (rare()) r->resultSetId = str(); r->resultSetStartPoint = in(); r->numberOfRecordsRequested = in(); if (rare()) list<Z_Range>(&r->num_ranges, &r->additionalRanges, [&] { Z_Range *g = make<Z_Range>(); g->startingPosition = in(); g->numberOfRecords = in(); return g; }, 0, 2); if (some()) r->recordComposition = comp(); r->preferredRecordSyntax = optoid(); if (rare()) r->maxSegmentCount = in(); if (rare()) r->maxRecordSize = in(); if (rare()) r->maxSegmentSize = in(); r->otherInfo = info(); break; }
        case Z_APDU_presentResponse: { Z_PresentResponse *r = a->u.presentResponse = make<Z_PresentResponse>(); r->referenceId = ref(); r->numberOfRecordsReturned = in(); r->nextResultSetPosition = in(); r->presentStatus = odr_intdup(o, x.range(0, 6)); r->records = recs(); r->otherInfo = info(); break; }
        case Z_APDU_deleteResultSetRequest: { Z_DeleteResultSetRequest *r = a->u.deleteResultSetRequest = make<Z_DeleteResultSetRequest>(); r->referenceId = ref(); r->deleteFunction = odr_intdup(o, x.range(0, 2)); if (some()) names(&r->num_resultSetList, &r->resultSetList, 0, 3); r->otherInfo = info(); break; }
        case Z_APDU_deleteResultSetResponse: { Z_DeleteResultSetResponse *r = a->u.deleteResultSetResponse = make<Z_DeleteResultSetResponse>(); r->referenceId = ref(); r->deleteOperationStatus = in(); auto st = [&]() -> Z_ListStatuses * { if (!rare()) return 0; Z_ListStatuses *l = make<Z_ListStatuses>(); list<Z_ListStatus>(&l->num, &l->elements, [&] { Z_ListStatus *s = make<Z_ListStatus>(); s->id = str(); s->status = in(); return s; }, 0, 2); return l; }; r->deleteListStatuses = st(); if (rare()) r->numberNotDeleted = in(); r->bulkStatuses = st(); if (rare()) r->deleteMessage = str(); r->otherInfo = info(); break; }
        case Z_APDU_accessControlRequest: { Z_AccessControlRequest *r = a->u.accessControlRequest = make<Z_AccessControlRequest>(); r->referenceId = ref(); if (some()) { r->which = Z_AccessControlRequest_simpleForm; r->u.simpleForm = oct(); } else { r->which = Z_AccessControlRequest_externallyDefined; r->u.externallyDefined = external(); } r->otherInfo = info(); break; }
        case Z_APDU_accessControlResponse: { Z_AccessControlResponse *r = a->u.accessControlResponse = make<Z_AccessControlResponse>(); r->referenceId = ref(); if (some()) { r->which = Z_AccessControlResponse_simpleForm; r->u.simpleForm = oct(); } else { r->which = Z_AccessControlResponse_externallyDefined; r->u.externallyDefined = external(); } if (rare()) r->diagnostic = diagrec(); r->otherInfo = info(); break; }
        case Z_APDU_resourceControlRequest: { Z_ResourceControlRequest *r = a->u.resourceControlRequest = make<Z_ResourceControlRequest>(); r->referenceId = ref(); r->suspendedFlag = optbool(); r->partialResultsAvailable = optin(); r->responseRequired = boolean(); r->triggeredRequestFlag = optbool(); r->otherInfo = info(); break; }
        case Z_APDU_triggerResourceControlRequest: { Z_TriggerResourceControlRequest *r = a->u.triggerResourceControlRequest = make<Z_TriggerResourceControlRequest>(); r->referenceId = ref(); r->requestedAction = in(); r->prefResourceReportFormat = optoid(); r->resultSetWanted = optbool(); r->otherInfo = info(); break; }
        case Z_APDU_resourceReportResponse: { Z_ResourceReportResponse *r = a->u.resourceReportResponse = make<Z_ResourceReportResponse>(); r->referenceId = ref(); r->resourceReportStatus = in(); r->otherInfo = info(); break; }
        case Z_APDU_scanRequest: { Z_ScanRequest *r = a->u.scanRequest = make<Z_ScanRequest>(); r->referenceId = ref(); names(&r->num_databaseNames, &r->databaseNames, odd ? 0 : 1, 2); r->attributeSet = optoid(); r->termListAndStartPoint = apt(); r->stepSize = optin(); r->numberOfTermsRequested = in(); r->preferredPositionInResponse = optin(); r->otherInfo = info(); break; }
        case Z_APDU_scanResponse: { Z_ScanResponse *r = a->u.scanResponse = make<Z_ScanResponse>(); r->referenceId = ref(); r->stepSize = optin(); r->scanStatus = odr_intdup(o, x.range(0, 7)); r->numberOfEntriesReturned = in(); r->positionOfTerm = optin(); if (!rare()) { Z_ListEntries *l = r->entries = make<Z_ListEntries>(); if (some()) list<Z_Entry>(&l->num_entries, &l->entries, [&] { Z_Entry *e = make<Z_Entry>(); if (!rare()) { e->which = Z_Entry_termInfo; Z_TermInfo *t = e->u.termInfo = make<Z_TermInfo>(); t->term = term(); t->displayTerm = rare() ? str() : 0; if (rare()) t->suggestedAttributes = attrs(); if (some()) t->globalOccurrences = in(); t->otherTermInfo = info(); } else { e->which = Z_Entry_surrogateDiagnostic; e->u.surrogateDiagnostic = diagrec(); } return e; }, 0, 3); diags(&l->num_nonsurrogateDiagnostics, &l->nonsurrogateDiagnostics); } r->attributeSet = optoid(); r->otherInfo = info(); break; }
        case Z_APDU_sortRequest: { Z_SortRequest *r = a->u.sortRequest = make<Z_SortRequest>(); r->referenceId = ref(); names(&r->num_inputResultSetNames, &r->inputResultSetNames, odd ? 0 : 1, 3); r->sortedResultSetName = str(); r->sortSequence = yaz_sort_spec(o, x.pick({"title a", "1=4 >i", "t < d <", "x s"}).c_str()); if (!r->sortSequence) r->sortSequence = make<Z_SortKeySpecList>(); r->otherInfo = info(); break; }
        case Z_APDU_sortResponse: { Z_SortResponse *r = a->u.sortResponse = make<Z_SortResponse>(); r->referenceId = ref(); r->sortStatus = odr_intdup(o, x.range(0, 3)); r->resultSetStatus = optin(); diags(&r->num_diagnostics, &r->diagnostics); r->resultCount = optin(); r->otherInfo = info(); break; }
        case Z_APDU_segmentRequest: { Z_Segment *r = a->u.segmentRequest = make<Z_Segment>(); r->referenceId = ref(); r->numberOfRecordsReturned = in(); list<Z_NamePlusRecord>(&r->num_segmentRecords, &r->segmentRecords, [&] { return namerec(); }, 0, 2); r->otherInfo = info(); break; }
        case Z_APDU_extendedServicesRequest: { Z_ExtendedServicesRequest *r = a->u.extendedServicesRequest = make<Z_ExtendedServicesRequest>(); r->referenceId = ref(); r->function = odr_intdup(o, x.range(1, 4)); r->packageType = oid(); r->packageName = optstr(); r->userId = optstr(); r->description = optstr(); if (rare()) r->taskSpecificParameters = external(); r->waitAction = odr_intdup(o, x.range(1, 5)); r->elements = optstr(); r->otherInfo = info(); break; }
        case Z_APDU_extendedServicesResponse: { Z_ExtendedServicesResponse *r = a->u.extendedServicesResponse = make<Z_ExtendedServicesResponse>(); r->referenceId = ref(); r->operationStatus = odr_intdup(o, x.range(1, 4)); diags(&r->num_diagnostics, &r->diagnostics); if (rare()) r->taskPackage = external(); r->otherInfo = info(); break; }
        case Z_APDU_close: { Z_Close *r = a->u.close = make<Z_Close>(); r->referenceId = ref(); r->closeReason = odr_intdup(o, x.range(0, 9)); r->diagnosticInformation = optstr(); r->resourceReportFormat = rare() ? oid() : 0; r->otherInfo = info(); break; }
        case Z_APDU_duplicateDetectionRequest: { Z_DuplicateDetectionRequest *r = a->u.duplicateDetectionRequest = make<Z_DuplicateDetectionRequest>(); r->referenceId = ref(); names(&r->num_inputResultSetIds, &r->inputResultSetIds, 1, 2); r->outputResultSetName = str(); r->clustering = boolean(); list<Z_RetentionCriterion>(&r->num_retentionCriteria, &r->retentionCriteria, [&] { Z_RetentionCriterion *c = make<Z_RetentionCriterion>(); c->which = Z_RetentionCriterion_numberOfEntries; c->u.numberOfEntries = in(); return c; }, 1, 2); r->otherInfo = info(); break; }
        case Z_APDU_duplicateDetectionResponse: { Z_DuplicateDetectionResponse *r = a->u.duplicateDetectionResponse = make<Z_DuplicateDetectionResponse>(); r->referenceId = ref(); r->status = odr_intdup(o, x.range(0, 1)); r->resultSetCount = optin(); diags(&r->num_diagnostics, &r->diagnostics); r->otherInfo = info(); break; }
        default: return zget_APDU(o, w);
        }
        return a;
    }
};
inline Z_GDU *wrap(ODR o, Z_APDU *a) { Z_GDU *g = (Z_GDU *) odr_malloc(o, sizeof *g); g->which = Z_GDU_Z3950; g->u.z3950 = a; return g; }
inline bool is_request(int w) { for (int k : {1, 3, 5, 7, 9, 11, 13, 14, 16, 18, 21, 23, 24, 20}) if (w == k) return true; return false; }
// what comes out has been through the encoder and decoder, as on a connection; null when it cannot
inline Z_GDU *decode(ODR o, const std::string &b) { char *c = (char *) odr_malloc(o, b.size() + 1); memcpy(c, b.data(), b.size()); ODR d = odr_createmem(ODR_DECODE); odr_setbuf(d, c, (int) b.size(), 0); Z_GDU *g = 0; int ok = z_GDU(d, &g, 0, 0); NMEM n = odr_extract_mem(d); nmem_transfer(odr_getmem(o), n); nmem_destroy(n); odr_destroy(d); return ok ? g : 0; }
inline Z_GDU *z3950(Ctx &x, ODR o, int which, bool odd)
{
    zk::Mem e; Gen g(x, e, odd); Z_APDU *a = g.apdu(which); if (!a) return 0; Z_GDU *w = wrap(e, a); std::string b = zk::encode(w); if (b.empty()) return 0;
    return decode(o, b);
}
}
