/* Minimal re-implementation of SCIP's C++ object wrapper (objscip) over the C API,
 * because no SCIP headers are installed.  Classes live in an inline namespace so that
 * they never clash with the copies exported by the bundled libscip. */
#ifndef VERIF_OBJSCIP_SHIM_H
#define VERIF_OBJSCIP_SHIM_H
#include <cassert>
#include <cstring>
#include <string>
#include <utility>
#include "scip/scip.h"
namespace scip { inline namespace verifshim {

class ObjCloneable { public: virtual ~ObjCloneable() {} };

class ObjProbData {
public:
    ObjProbData() {}
    virtual ~ObjProbData() {}
    virtual SCIP_RETCODE scip_delorig(SCIP*) { return SCIP_OKAY; }
    virtual SCIP_RETCODE scip_trans(SCIP*, ObjProbData** objprobdata, SCIP_Bool* deleteobject) {
        *objprobdata = this; *deleteobject = FALSE; return SCIP_OKAY;
    }
    virtual SCIP_RETCODE scip_deltrans(SCIP*) { return SCIP_OKAY; }
    virtual SCIP_RETCODE scip_initsol(SCIP*) { return SCIP_OKAY; }
    virtual SCIP_RETCODE scip_exitsol(SCIP*, SCIP_Bool) { return SCIP_OKAY; }
};

class ObjConshdlr : public ObjCloneable {
public:
    SCIP* scip_;
    std::string name_store_, desc_store_;
    const char* scip_name_;
    const char* scip_desc_;
    const int scip_sepapriority_, scip_enfopriority_, scip_checkpriority_, scip_sepafreq_, scip_propfreq_, scip_eagerfreq_;
    int scip_maxprerounds_;
    const SCIP_Bool scip_delaysepa_, scip_delayprop_, scip_needscons_;
    const SCIP_PROPTIMING scip_proptiming_;
    const SCIP_PRESOLTIMING scip_presoltiming_;
    ObjConshdlr(SCIP* scip, const char* name, const char* desc, int sepapriority, int enfopriority, int checkpriority,
        int sepafreq, int propfreq, int eagerfreq, int maxprerounds, SCIP_Bool delaysepa, SCIP_Bool delayprop,
        SCIP_Bool needscons, SCIP_PROPTIMING proptiming, SCIP_PRESOLTIMING presoltiming)
        : scip_(scip), name_store_(name), desc_store_(desc), scip_name_(name_store_.c_str()), scip_desc_(desc_store_.c_str()),
          scip_sepapriority_(sepapriority), scip_enfopriority_(enfopriority), scip_checkpriority_(checkpriority),
          scip_sepafreq_(sepafreq), scip_propfreq_(propfreq), scip_eagerfreq_(eagerfreq), scip_maxprerounds_(maxprerounds),
          scip_delaysepa_(delaysepa), scip_delayprop_(delayprop), scip_needscons_(needscons),
          scip_proptiming_(proptiming), scip_presoltiming_(presoltiming) {}
    virtual ~ObjConshdlr() {}
    virtual SCIP_DECL_CONSFREE(scip_free) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSINIT(scip_init) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSEXIT(scip_exit) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSINITSOL(scip_initsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSEXITSOL(scip_exitsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSDELETE(scip_delete) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSTRANS(scip_trans) = 0;
    virtual SCIP_DECL_CONSINITLP(scip_initlp) { *infeasible = FALSE; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSSEPALP(scip_sepalp) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSSEPASOL(scip_sepasol) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSENFOLP(scip_enfolp) = 0;
    virtual SCIP_DECL_CONSENFOPS(scip_enfops) = 0;
    virtual SCIP_DECL_CONSCHECK(scip_check) = 0;
    virtual SCIP_DECL_CONSPROP(scip_prop) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSLOCK(scip_lock) = 0;
    virtual SCIP_DECL_CONSDELVARS(scip_delvars) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSPRINT(scip_print) { return SCIP_OKAY; }
    // never called through this wrapper; here so that a class may override them
    virtual SCIP_DECL_CONSINITPRE(scip_initpre) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSEXITPRE(scip_exitpre) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSENFORELAX(scip_enforelax) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSACTIVE(scip_active) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSDEACTIVE(scip_deactive) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSENABLE(scip_enable) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSDISABLE(scip_disable) { return SCIP_OKAY; }
    virtual SCIP_DECL_CONSGETVARS(scip_getvars) { *success = FALSE; return SCIP_OKAY; }
    virtual SCIP_DECL_CONSGETNVARS(scip_getnvars) { *nvars = 0; *success = FALSE; return SCIP_OKAY; }
};

class ObjEventhdlr : public ObjCloneable {
public:
    SCIP* scip_;
    std::string name_store_, desc_store_;
    const char* scip_name_;
    const char* scip_desc_;
    ObjEventhdlr(SCIP* scip, const char* name, const char* desc)
        : scip_(scip), name_store_(name), desc_store_(desc), scip_name_(name_store_.c_str()), scip_desc_(desc_store_.c_str()) {}
    virtual ~ObjEventhdlr() {}
    virtual SCIP_DECL_EVENTFREE(scip_free) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTINIT(scip_init) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTEXIT(scip_exit) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTINITSOL(scip_initsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTEXITSOL(scip_exitsol) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTDELETE(scip_delete) { return SCIP_OKAY; }
    virtual SCIP_DECL_EVENTEXEC(scip_exec) = 0;
};
} }

SCIP_RETCODE SCIPcreateObjProb(SCIP* scip, const char* name, scip::ObjProbData* objprobdata, SCIP_Bool deleteobject);
scip::ObjProbData* SCIPgetObjProbData(SCIP* scip);
SCIP_RETCODE SCIPincludeObjConshdlr(SCIP* scip, scip::ObjConshdlr* objconshdlr, SCIP_Bool deleteobject);
scip::ObjConshdlr* SCIPfindObjConshdlr(SCIP* scip, const char* name);
scip::ObjConshdlr* SCIPgetObjConshdlr(SCIP* scip, SCIP_CONSHDLR* conshdlr);
SCIP_RETCODE SCIPincludeObjEventhdlr(SCIP* scip, scip::ObjEventhdlr* objeventhdlr, SCIP_Bool deleteobject);
scip::ObjEventhdlr* SCIPfindObjEventhdlr(SCIP* scip, const char* name);
scip::ObjEventhdlr* SCIPgetObjEventhdlr(SCIP* scip, SCIP_EVENTHDLR* eventhdlr);
#endif
