/* Implementation of the objscip wrapper on SCIP's C API (see objscip/objscip.h). */
#include "objscip/objscip.h"

struct SCIP_ProbData { scip::ObjProbData* objprobdata; SCIP_Bool deleteobject; };
struct SCIP_ConshdlrData { scip::ObjConshdlr* obj; SCIP_Bool deleteobject; };
struct SCIP_EventhdlrData { scip::ObjEventhdlr* obj; SCIP_Bool deleteobject; };

static SCIP_RETCODE probDelorig(SCIP* scip, SCIP_PROBDATA** pd) {
    SCIP_CALL((*pd)->objprobdata->scip_delorig(scip));
    if ((*pd)->deleteobject) delete (*pd)->objprobdata;
    delete *pd; *pd = NULL; return SCIP_OKAY;
}
static SCIP_RETCODE probTrans(SCIP* scip, SCIP_PROBDATA* src, SCIP_PROBDATA** dst) {
    scip::ObjProbData* o = NULL; SCIP_Bool del = FALSE;
    SCIP_CALL(src->objprobdata->scip_trans(scip, &o, &del));
    *dst = new SCIP_ProbData{o, del}; return SCIP_OKAY;
}
static SCIP_RETCODE probDeltrans(SCIP* scip, SCIP_PROBDATA** pd) {
    SCIP_CALL((*pd)->objprobdata->scip_deltrans(scip));
    if ((*pd)->deleteobject) delete (*pd)->objprobdata;
    delete *pd; *pd = NULL; return SCIP_OKAY;
}
SCIP_RETCODE SCIPcreateObjProb(SCIP* scip, const char* name, scip::ObjProbData* o, SCIP_Bool del) {
    auto pd = new SCIP_ProbData{o, del};
    return SCIPcreateProb(scip, name, probDelorig, probTrans, probDeltrans, NULL, NULL, NULL, pd);
}
scip::ObjProbData* SCIPgetObjProbData(SCIP* scip) {
    auto pd = SCIPgetProbData(scip);
    return pd == NULL ? NULL : pd->objprobdata;
}

#define H (SCIPconshdlrGetData(conshdlr)->obj)
static SCIP_DECL_CONSFREE(cFree) {
    auto d = SCIPconshdlrGetData(conshdlr);
    SCIP_CALL(d->obj->scip_free(scip, conshdlr));
    if (d->deleteobject) delete d->obj;
    delete d; SCIPconshdlrSetData(conshdlr, NULL); return SCIP_OKAY;
}
static SCIP_DECL_CONSINIT(cInit) { return H->scip_init(scip, conshdlr, conss, nconss); }
static SCIP_DECL_CONSEXIT(cExit) { return H->scip_exit(scip, conshdlr, conss, nconss); }
static SCIP_DECL_CONSINITSOL(cInitsol) { return H->scip_initsol(scip, conshdlr, conss, nconss); }
static SCIP_DECL_CONSEXITSOL(cExitsol) { return H->scip_exitsol(scip, conshdlr, conss, nconss, restart); }
static SCIP_DECL_CONSDELETE(cDelete) { return H->scip_delete(scip, conshdlr, cons, consdata); }
static SCIP_DECL_CONSTRANS(cTrans) { return H->scip_trans(scip, conshdlr, sourcecons, targetcons); }
static SCIP_DECL_CONSINITLP(cInitlp) { return H->scip_initlp(scip, conshdlr, conss, nconss, infeasible); }
static SCIP_DECL_CONSSEPALP(cSepalp) { return H->scip_sepalp(scip, conshdlr, conss, nconss, nusefulconss, result); }
static SCIP_DECL_CONSSEPASOL(cSepasol) { return H->scip_sepasol(scip, conshdlr, conss, nconss, nusefulconss, sol, result); }
static SCIP_DECL_CONSENFOLP(cEnfolp) { return H->scip_enfolp(scip, conshdlr, conss, nconss, nusefulconss, solinfeasible, result); }
static SCIP_DECL_CONSENFOPS(cEnfops) { return H->scip_enfops(scip, conshdlr, conss, nconss, nusefulconss, solinfeasible, objinfeasible, result); }
static SCIP_DECL_CONSCHECK(cCheck) { return H->scip_check(scip, conshdlr, conss, nconss, sol, checkintegrality, checklprows, printreason, completely, result); }
static SCIP_DECL_CONSPROP(cProp) { return H->scip_prop(scip, conshdlr, conss, nconss, nusefulconss, nmarkedconss, proptiming, result); }
static SCIP_DECL_CONSLOCK(cLock) { return H->scip_lock(scip, conshdlr, cons, locktype, nlockspos, nlocksneg); }
static SCIP_DECL_CONSDELVARS(cDelvars) { return H->scip_delvars(scip, conshdlr, conss, nconss); }
static SCIP_DECL_CONSPRINT(cPrint) { return H->scip_print(scip, conshdlr, cons, file); }
#undef H

SCIP_RETCODE SCIPincludeObjConshdlr(SCIP* scip, scip::ObjConshdlr* o, SCIP_Bool del) {
    SCIP_CONSHDLR* ch = NULL;
    auto d = new SCIP_ConshdlrData{o, del};
    SCIP_CALL(SCIPincludeConshdlrBasic(scip, &ch, o->scip_name_, o->scip_desc_, o->scip_enfopriority_, o->scip_checkpriority_,
        o->scip_eagerfreq_, o->scip_needscons_, cEnfolp, cEnfops, cCheck, cLock, d));
    SCIP_CALL(SCIPsetConshdlrSepa(scip, ch, cSepalp, cSepasol, o->scip_sepafreq_, o->scip_sepapriority_, o->scip_delaysepa_));
    SCIP_CALL(SCIPsetConshdlrProp(scip, ch, cProp, o->scip_propfreq_, o->scip_delayprop_, o->scip_proptiming_));
    SCIP_CALL(SCIPsetConshdlrFree(scip, ch, cFree));
    SCIP_CALL(SCIPsetConshdlrInit(scip, ch, cInit));
    SCIP_CALL(SCIPsetConshdlrExit(scip, ch, cExit));
    SCIP_CALL(SCIPsetConshdlrInitsol(scip, ch, cInitsol));
    SCIP_CALL(SCIPsetConshdlrExitsol(scip, ch, cExitsol));
    SCIP_CALL(SCIPsetConshdlrDelete(scip, ch, cDelete));
    SCIP_CALL(SCIPsetConshdlrTrans(scip, ch, cTrans));
    SCIP_CALL(SCIPsetConshdlrInitlp(scip, ch, cInitlp));
    SCIP_CALL(SCIPsetConshdlrPrint(scip, ch, cPrint));
    SCIP_CALL(SCIPsetConshdlrDelvars(scip, ch, cDelvars));
    return SCIP_OKAY;
}
scip::ObjConshdlr* SCIPfindObjConshdlr(SCIP* scip, const char* name) {
    auto ch = SCIPfindConshdlr(scip, name);
    return ch == NULL ? NULL : SCIPconshdlrGetData(ch)->obj;
}
scip::ObjConshdlr* SCIPgetObjConshdlr(SCIP*, SCIP_CONSHDLR* ch) { return SCIPconshdlrGetData(ch)->obj; }

#define H (SCIPeventhdlrGetData(eventhdlr)->obj)
static SCIP_DECL_EVENTFREE(eFree) {
    auto d = SCIPeventhdlrGetData(eventhdlr);
    SCIP_CALL(d->obj->scip_free(scip, eventhdlr));
    if (d->deleteobject) delete d->obj;
    delete d; return SCIP_OKAY;
}
static SCIP_DECL_EVENTINIT(eInit) { return H->scip_init(scip, eventhdlr); }
static SCIP_DECL_EVENTEXIT(eExit) { return H->scip_exit(scip, eventhdlr); }
static SCIP_DECL_EVENTINITSOL(eInitsol) { return H->scip_initsol(scip, eventhdlr); }
static SCIP_DECL_EVENTEXITSOL(eExitsol) { return H->scip_exitsol(scip, eventhdlr); }
static SCIP_DECL_EVENTDELETE(eDelete) { return H->scip_delete(scip, eventhdlr, eventdata); }
static SCIP_DECL_EVENTEXEC(eExec) { return H->scip_exec(scip, eventhdlr, event, eventdata); }
#undef H
SCIP_RETCODE SCIPincludeObjEventhdlr(SCIP* scip, scip::ObjEventhdlr* o, SCIP_Bool del) {
    SCIP_EVENTHDLR* eh = NULL;
    auto d = new SCIP_EventhdlrData{o, del};
    SCIP_CALL(SCIPincludeEventhdlrBasic(scip, &eh, o->scip_name_, o->scip_desc_, eExec, d));
    SCIP_CALL(SCIPsetEventhdlrFree(scip, eh, eFree));
    SCIP_CALL(SCIPsetEventhdlrInit(scip, eh, eInit));
    SCIP_CALL(SCIPsetEventhdlrExit(scip, eh, eExit));
    SCIP_CALL(SCIPsetEventhdlrInitsol(scip, eh, eInitsol));
    SCIP_CALL(SCIPsetEventhdlrExitsol(scip, eh, eExitsol));
    SCIP_CALL(SCIPsetEventhdlrDelete(scip, eh, eDelete));
    return SCIP_OKAY;
}
scip::ObjEventhdlr* SCIPfindObjEventhdlr(SCIP* scip, const char* name) {
    auto eh = SCIPfindEventhdlr(scip, name);
    return eh == NULL ? NULL : SCIPeventhdlrGetData(eh)->obj;
}
scip::ObjEventhdlr* SCIPgetObjEventhdlr(SCIP*, SCIP_EVENTHDLR* eh) { return SCIPeventhdlrGetData(eh)->obj; }
