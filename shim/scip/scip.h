/* Declarations of the C API of the SCIP 10 library bundled in the pyscipopt wheel
 * (no SCIP headers are installed in this sandbox).  Prototypes follow pyscipopt's scip.pxd;
 * enum values are those pyscipopt reports.  Used by the /verif harnesses only. */
#ifndef VERIF_SCIP_SHIM_H
#define VERIF_SCIP_SHIM_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <assert.h>
#include <string.h>
#include <math.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct Scip SCIP;
typedef struct SCIP_Bdchgidx SCIP_BDCHGIDX;
typedef struct SCIP_Boundchg SCIP_BOUNDCHG;
typedef struct SCIP_Branchrule SCIP_BRANCHRULE;
typedef struct SCIP_BranchruleData SCIP_BRANCHRULEDATA;
typedef struct SCIP_Col SCIP_COL;
typedef struct SCIP_Cons SCIP_CONS;
typedef struct SCIP_ConsData SCIP_CONSDATA;
typedef struct SCIP_Conshdlr SCIP_CONSHDLR;
typedef struct SCIP_ConshdlrData SCIP_CONSHDLRDATA;
typedef struct SCIP_Diveset SCIP_DIVESET;
typedef union SCIP_DomChg SCIP_DOMCHG;
typedef struct SCIP_Event SCIP_EVENT;
typedef struct SCIP_Eventdata SCIP_EVENTDATA;
typedef struct SCIP_Eventhdlr SCIP_EVENTHDLR;
typedef struct SCIP_EventhdlrData SCIP_EVENTHDLRDATA;
typedef struct SCIP_Hashmap SCIP_HASHMAP;
typedef struct SCIP_Heur SCIP_HEUR;
typedef struct SCIP_Heurdata SCIP_HEURDATA;
typedef struct SCIP_Messagehdlr SCIP_MESSAGEHDLR;
typedef struct SCIP_Messagehdlrdata SCIP_MESSAGEHDLRDATA;
typedef struct SCIP_Node SCIP_NODE;
typedef struct SCIP_Nodesel SCIP_NODESEL;
typedef struct SCIP_Nodeseldata SCIP_NODESELDATA;
typedef struct SCIP_Presol SCIP_PRESOL;
typedef struct SCIP_Presoldata SCIP_PRESOLDATA;
typedef struct SCIP_Pricer SCIP_PRICER;
typedef struct SCIP_Pricerdata SCIP_PRICERDATA;
typedef struct SCIP_Prop SCIP_PROP;
typedef struct SCIP_Propdata SCIP_PROPDATA;
typedef struct SCIP_Relax SCIP_RELAX;
typedef struct SCIP_Relaxdata SCIP_RELAXDATA;
typedef struct SCIP_Row SCIP_ROW;
typedef struct SCIP_Sepa SCIP_SEPA;
typedef struct SCIP_Sepadata SCIP_SEPADATA;
typedef struct SCIP_Sol SCIP_SOL;
typedef struct SCIP_Var SCIP_VAR;
typedef struct SCIP_Vardata SCIP_VARDATA;
typedef struct SCIP_Reader SCIP_READER;
typedef struct SCIP_ProbData SCIP_PROBDATA;
typedef unsigned int SCIP_Bool;
typedef double SCIP_Real;
typedef long long SCIP_Longint;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
typedef enum {SCIP_OKAY=1,SCIP_ERROR=0,SCIP_NOMEMORY=-1,SCIP_READERROR=-2,SCIP_WRITEERROR=-3,SCIP_NOFILE=-4,SCIP_FILECREATEERROR=-5,SCIP_LPERROR=-6,SCIP_NOPROBLEM=-7,SCIP_INVALIDCALL=-8,SCIP_INVALIDDATA=-9,SCIP_INVALIDRESULT=-10,SCIP_PLUGINNOTFOUND=-11,SCIP_PARAMETERUNKNOWN=-12,SCIP_PARAMETERWRONGTYPE=-13,SCIP_PARAMETERWRONGVAL=-14,SCIP_KEYALREADYEXISTING=-15,SCIP_MAXDEPTHLEVEL=-16,SCIP_BRANCHERROR=-17,SCIP_NOTIMPLEMENTED=-18} SCIP_RETCODE;
typedef SCIP_RETCODE SCIP_Retcode;
typedef enum {SCIP_VARTYPE_BINARY=0,SCIP_VARTYPE_INTEGER=1,SCIP_VARTYPE_IMPLINT=2,SCIP_VARTYPE_CONTINUOUS=3} SCIP_VARTYPE;
typedef SCIP_VARTYPE SCIP_Vartype;
typedef enum SCIP_Varstatus {SCIP_VARSTATUS_ORIGINAL=0,SCIP_VARSTATUS_LOOSE=1,SCIP_VARSTATUS_COLUMN=2,SCIP_VARSTATUS_FIXED=3,SCIP_VARSTATUS_AGGREGATED=4,SCIP_VARSTATUS_MULTAGGR=5,SCIP_VARSTATUS_NEGATED=6} SCIP_VARSTATUS;
typedef enum {SCIP_OBJSENSE_MAXIMIZE=-1,SCIP_OBJSENSE_MINIMIZE=1} SCIP_OBJSENSE;
typedef enum {SCIP_BOUNDTYPE_LOWER=0,SCIP_BOUNDTYPE_UPPER=1} SCIP_BOUNDTYPE;
typedef enum {SCIP_BOUNDCHGTYPE_BRANCHING=0,SCIP_BOUNDCHGTYPE_CONSINFER=1,SCIP_BOUNDCHGTYPE_PROPINFER=2} SCIP_BOUNDCHGTYPE;
typedef enum {SCIP_DIDNOTRUN=1, SCIP_DELAYED=2, SCIP_DIDNOTFIND=3, SCIP_FEASIBLE=4, SCIP_INFEASIBLE=5, SCIP_UNBOUNDED=6, SCIP_CUTOFF=7, SCIP_SEPARATED=8, SCIP_NEWROUND=9, SCIP_REDUCEDDOM=10, SCIP_CONSADDED=11, SCIP_CONSCHANGED=12, SCIP_BRANCHED=13, SCIP_SOLVELP=14, SCIP_FOUNDSOL=15, SCIP_SUSPENDED=16, SCIP_SUCCESS=17} SCIP_RESULT;
typedef enum {SCIP_STATUS_UNKNOWN=0, SCIP_STATUS_USERINTERRUPT=10, SCIP_STATUS_NODELIMIT=20, SCIP_STATUS_TOTALNODELIMIT=21, SCIP_STATUS_STALLNODELIMIT=22, SCIP_STATUS_TIMELIMIT=23, SCIP_STATUS_MEMLIMIT=24, SCIP_STATUS_GAPLIMIT=25, SCIP_STATUS_SOLLIMIT=28, SCIP_STATUS_BESTSOLLIMIT=29, SCIP_STATUS_RESTARTLIMIT=30, SCIP_STATUS_PRIMALLIMIT=26, SCIP_STATUS_DUALLIMIT=27, SCIP_STATUS_OPTIMAL=1, SCIP_STATUS_INFEASIBLE=2, SCIP_STATUS_UNBOUNDED=3, SCIP_STATUS_INFORUNBD=4} SCIP_STATUS;
typedef enum {SCIP_STAGE_INIT=0, SCIP_STAGE_PROBLEM=1, SCIP_STAGE_TRANSFORMING=2, SCIP_STAGE_TRANSFORMED=3, SCIP_STAGE_INITPRESOLVE=4, SCIP_STAGE_PRESOLVING=5, SCIP_STAGE_EXITPRESOLVE=6, SCIP_STAGE_PRESOLVED=7, SCIP_STAGE_INITSOLVE=8, SCIP_STAGE_SOLVING=9, SCIP_STAGE_SOLVED=10, SCIP_STAGE_EXITSOLVE=11, SCIP_STAGE_FREETRANS=12, SCIP_STAGE_FREE=13} SCIP_STAGE;
typedef enum {SCIP_NODETYPE_FOCUSNODE=0, SCIP_NODETYPE_PROBINGNODE=1, SCIP_NODETYPE_SIBLING=2, SCIP_NODETYPE_CHILD=3, SCIP_NODETYPE_LEAF=4, SCIP_NODETYPE_DEADEND=5, SCIP_NODETYPE_JUNCTION=6, SCIP_NODETYPE_PSEUDOFORK=7, SCIP_NODETYPE_FORK=8, SCIP_NODETYPE_SUBROOT=9, SCIP_NODETYPE_REFOCUSNODE=10} SCIP_NODETYPE;
typedef enum {SCIP_PARAMSETTING_DEFAULT=0, SCIP_PARAMSETTING_AGGRESSIVE=1, SCIP_PARAMSETTING_FAST=2, SCIP_PARAMSETTING_OFF=3} SCIP_PARAMSETTING;
typedef enum {SCIP_PARAMEMPHASIS_DEFAULT=0, SCIP_PARAMEMPHASIS_CPSOLVER=1, SCIP_PARAMEMPHASIS_EASYCIP=2, SCIP_PARAMEMPHASIS_FEASIBILITY=3, SCIP_PARAMEMPHASIS_HARDLP=4, SCIP_PARAMEMPHASIS_OPTIMALITY=5, SCIP_PARAMEMPHASIS_COUNTER=6, SCIP_PARAMEMPHASIS_PHASEFEAS=7, SCIP_PARAMEMPHASIS_PHASEIMPROVE=8, SCIP_PARAMEMPHASIS_PHASEPROOF=9, SCIP_PARAMEMPHASIS_NUMERICS=10, SCIP_PARAMEMPHASIS_BENCHMARK=11} SCIP_PARAMEMPHASIS;
typedef enum {SCIP_LPSOLSTAT_NOTSOLVED=0, SCIP_LPSOLSTAT_OPTIMAL=1, SCIP_LPSOLSTAT_INFEASIBLE=2, SCIP_LPSOLSTAT_UNBOUNDEDRAY=3, SCIP_LPSOLSTAT_OBJLIMIT=4, SCIP_LPSOLSTAT_ITERLIMIT=5, SCIP_LPSOLSTAT_TIMELIMIT=6, SCIP_LPSOLSTAT_ERROR=7} SCIP_LPSOLSTAT;
typedef enum {SCIP_BRANCHDIR_DOWNWARDS=0, SCIP_BRANCHDIR_UPWARDS=1, SCIP_BRANCHDIR_FIXED=2, SCIP_BRANCHDIR_AUTO=3} SCIP_BRANCHDIR;
typedef enum {SCIP_LOCKTYPE_MODEL=0, SCIP_LOCKTYPE_CONFLICT=1} SCIP_LOCKTYPE;
typedef enum {SCIP_IMPLINTTYPE_NONE=0, SCIP_IMPLINTTYPE_WEAK=1, SCIP_IMPLINTTYPE_STRONG=2} SCIP_IMPLINTTYPE;
typedef enum {SCIP_SOLORIGIN_ORIGINAL=0, SCIP_SOLORIGIN_ZERO=1, SCIP_SOLORIGIN_LPSOL=2, SCIP_SOLORIGIN_NLPSOL=3, SCIP_SOLORIGIN_RELAXSOL=4, SCIP_SOLORIGIN_PSEUDOSOL=5, SCIP_SOLORIGIN_PARTIAL=6, SCIP_SOLORIGIN_UNKNOWN=7} SCIP_SOLORIGIN;
typedef enum {SCIP_BASESTAT_LOWER=0, SCIP_BASESTAT_BASIC=1, SCIP_BASESTAT_UPPER=2, SCIP_BASESTAT_ZERO=3} SCIP_BASESTAT;
typedef enum {SCIP_ROWORIGINTYPE_UNSPEC=0, SCIP_ROWORIGINTYPE_CONS=2, SCIP_ROWORIGINTYPE_SEPA=3, SCIP_ROWORIGINTYPE_REOPT=4} SCIP_ROWORIGINTYPE;
typedef SCIP_STATUS SCIP_Status;
typedef SCIP_RESULT SCIP_Result;
typedef SCIP_STAGE SCIP_Stage;
typedef uint64_t SCIP_EVENTTYPE;
typedef unsigned int SCIP_PROPTIMING;
typedef unsigned int SCIP_PRESOLTIMING;
typedef unsigned int SCIP_HEURTIMING;
#define SCIP_EVENTTYPE_FORMAT PRIx64
#define SCIP_EVENTTYPE_DISABLED UINT64_C(0)
#define SCIP_EVENTTYPE_VARADDED UINT64_C(1)
#define SCIP_EVENTTYPE_VARDELETED UINT64_C(2)
#define SCIP_EVENTTYPE_VARFIXED UINT64_C(4)
#define SCIP_EVENTTYPE_VARUNLOCKED UINT64_C(8)
#define SCIP_EVENTTYPE_OBJCHANGED UINT64_C(16)
#define SCIP_EVENTTYPE_GLBCHANGED UINT64_C(32)
#define SCIP_EVENTTYPE_GUBCHANGED UINT64_C(64)
#define SCIP_EVENTTYPE_LBTIGHTENED UINT64_C(128)
#define SCIP_EVENTTYPE_LBRELAXED UINT64_C(256)
#define SCIP_EVENTTYPE_UBTIGHTENED UINT64_C(512)
#define SCIP_EVENTTYPE_UBRELAXED UINT64_C(1024)
#define SCIP_EVENTTYPE_GHOLEADDED UINT64_C(2048)
#define SCIP_EVENTTYPE_GHOLEREMOVED UINT64_C(4096)
#define SCIP_EVENTTYPE_LHOLEADDED UINT64_C(8192)
#define SCIP_EVENTTYPE_LHOLEREMOVED UINT64_C(16384)
#define SCIP_EVENTTYPE_IMPLADDED UINT64_C(32768)
#define SCIP_EVENTTYPE_PRESOLVEROUND UINT64_C(262144)
#define SCIP_EVENTTYPE_NODEFOCUSED UINT64_C(524288)
#define SCIP_EVENTTYPE_NODEFEASIBLE UINT64_C(1048576)
#define SCIP_EVENTTYPE_NODEINFEASIBLE UINT64_C(2097152)
#define SCIP_EVENTTYPE_NODEBRANCHED UINT64_C(4194304)
#define SCIP_EVENTTYPE_NODEDELETE UINT64_C(8388608)
#define SCIP_EVENTTYPE_DUALBOUNDIMPROVED UINT64_C(16777216)
#define SCIP_EVENTTYPE_FIRSTLPSOLVED UINT64_C(33554432)
#define SCIP_EVENTTYPE_LPSOLVED UINT64_C(67108864)
#define SCIP_EVENTTYPE_LPEVENT UINT64_C(100663296)
#define SCIP_EVENTTYPE_POORSOLFOUND UINT64_C(134217728)
#define SCIP_EVENTTYPE_BESTSOLFOUND UINT64_C(268435456)
#define SCIP_EVENTTYPE_ROWADDEDSEPA UINT64_C(536870912)
#define SCIP_EVENTTYPE_ROWDELETEDSEPA UINT64_C(1073741824)
#define SCIP_EVENTTYPE_ROWADDEDLP UINT64_C(2147483648)
#define SCIP_EVENTTYPE_ROWDELETEDLP UINT64_C(4294967296)
#define SCIP_EVENTTYPE_ROWCOEFCHANGED UINT64_C(8589934592)
#define SCIP_EVENTTYPE_ROWCONSTCHANGED UINT64_C(17179869184)
#define SCIP_EVENTTYPE_ROWSIDECHANGED UINT64_C(34359738368)
#define SCIP_EVENTTYPE_SYNC UINT64_C(68719476736)
#define SCIP_EVENTTYPE_GBDCHANGED UINT64_C(96)
#define SCIP_EVENTTYPE_LBCHANGED UINT64_C(384)
#define SCIP_EVENTTYPE_UBCHANGED UINT64_C(1536)
#define SCIP_EVENTTYPE_BOUNDTIGHTENED UINT64_C(640)
#define SCIP_EVENTTYPE_BOUNDRELAXED UINT64_C(1280)
#define SCIP_EVENTTYPE_BOUNDCHANGED UINT64_C(1920)
#define SCIP_EVENTTYPE_GHOLECHANGED UINT64_C(6144)
#define SCIP_EVENTTYPE_LHOLECHANGED UINT64_C(24576)
#define SCIP_EVENTTYPE_HOLECHANGED UINT64_C(30720)
#define SCIP_EVENTTYPE_DOMCHANGED UINT64_C(32640)
#define SCIP_EVENTTYPE_VARCHANGED UINT64_C(262142)
#define SCIP_EVENTTYPE_VAREVENT UINT64_C(262143)
#define SCIP_EVENTTYPE_NODESOLVED UINT64_C(7340032)
#define SCIP_EVENTTYPE_NODEEVENT UINT64_C(7864320)
#define SCIP_EVENTTYPE_SOLFOUND UINT64_C(402653184)
#define SCIP_EVENTTYPE_SOLEVENT UINT64_C(402653184)
#define SCIP_EVENTTYPE_GAPUPDATED UINT64_C(285212672)
#define SCIP_EVENTTYPE_ROWCHANGED UINT64_C(60129542144)
#define SCIP_EVENTTYPE_ROWEVENT UINT64_C(68182605824)
#define SCIP_PROPTIMING_BEFORELP 1u
#define SCIP_PROPTIMING_DURINGLPLOOP 2u
#define SCIP_PROPTIMING_AFTERLPLOOP 4u
#define SCIP_PROPTIMING_AFTERLPNODE 8u
#define SCIP_PRESOLTIMING_NONE 2u
#define SCIP_PRESOLTIMING_FAST 4u
#define SCIP_PRESOLTIMING_MEDIUM 8u
#define SCIP_PRESOLTIMING_EXHAUSTIVE 16u
#define SCIP_HEURTIMING_BEFORENODE 1u
#define SCIP_HEURTIMING_DURINGLPLOOP 2u
#define SCIP_HEURTIMING_AFTERLPLOOP 4u
#define SCIP_HEURTIMING_AFTERLPNODE 8u
#define SCIP_HEURTIMING_AFTERPSEUDONODE 16u
#define SCIP_HEURTIMING_AFTERLPPLUNGE 32u
#define SCIP_HEURTIMING_AFTERPSEUDOPLUNGE 64u
#define SCIP_HEURTIMING_DURINGPRICINGLOOP 128u
#define SCIP_HEURTIMING_BEFOREPRESOL 256u
#define SCIP_HEURTIMING_DURINGPRESOLLOOP 512u
#define SCIP_HEURTIMING_AFTERPROPLOOP 1024u
void SCIPmessageSetErrorPrinting(void (*cb)(void*, FILE*, const char*), void* data);
#define SCIP_PROPTIMING_ALWAYS 15u
#define SCIP_PRESOLTIMING_ALWAYS 28u
#define SCIP_MAXSTRLEN 1024
#define SCIP_INVALID 1e99
#define SCIP_DEFAULT_INFINITY 1e+20
#define SCIP_CALL(x) do { SCIP_RETCODE _restat_; if( (_restat_ = (x)) != SCIP_OKAY ) { return _restat_; } } while(FALSE)
#define SCIP_CALL_ABORT(x) do { if( (x) != SCIP_OKAY ) abort(); } while(FALSE)
#define SCIP_CALL_EXC(x) do { if( (x) != SCIP_OKAY ) throw (x); } while(FALSE)
#define SCIPerrorMessage(...) ((void)fprintf(stderr, __VA_ARGS__))
#define SCIPwarningMessage_(...) ((void)0)
#define SCIPdebugMessage(...) ((void)0)
#define SCIPdebugMsg(...) ((void)0)
#define SCIPdebug(x)
#define BMScheckEmptyMemory() ((void)0)
#define SCIPABORT() abort()
#define MAX(x,y) ((x)>=(y)?(x):(y))
#define MIN(x,y) ((x)<=(y)?(x):(y))

/* callback typedefs used by the object wrapper */
#define SCIP_DECL_CONSHDLRCOPY(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_Bool* valid)
#define SCIP_DECL_CONSFREE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr)
#define SCIP_DECL_CONSINIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSINITPRE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXITPRE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_Bool restart)
#define SCIP_DECL_CONSDELETE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_CONSDATA** consdata)
#define SCIP_DECL_CONSTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* sourcecons, SCIP_CONS** targetcons)
#define SCIP_DECL_CONSINITLP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_Bool* infeasible)
#define SCIP_DECL_CONSSEPALP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_RESULT* result)
#define SCIP_DECL_CONSSEPASOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_SOL* sol, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOLP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFORELAX(x) SCIP_RETCODE x (SCIP* scip, SCIP_SOL* sol, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOPS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_Bool objinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSCHECK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_SOL* sol, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool printreason, SCIP_Bool completely, SCIP_RESULT* result)
#define SCIP_DECL_CONSPROP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, int nmarkedconss, SCIP_PROPTIMING proptiming, SCIP_RESULT* result)
#define SCIP_DECL_CONSLOCK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_LOCKTYPE locktype, int nlockspos, int nlocksneg)
#define SCIP_DECL_CONSDELVARS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSACTIVE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons)
#define SCIP_DECL_CONSDEACTIVE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons)
#define SCIP_DECL_CONSENABLE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons)
#define SCIP_DECL_CONSDISABLE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons)
#define SCIP_DECL_CONSGETVARS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_VAR** vars, int varssize, SCIP_Bool* success)
#define SCIP_DECL_CONSGETNVARS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, int* nvars, SCIP_Bool* success)
#define SCIP_DECL_CONSPRINT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, FILE* file)
#define SCIP_DECL_EVENTCOPY(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTFREE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTDELETE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA** eventdata)
#define SCIP_DECL_EVENTEXEC(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENT* event, SCIP_EVENTDATA* eventdata)
#define SCIP_DECL_HEUREXEC(x) SCIP_RETCODE x (SCIP* scip, SCIP_HEUR* heur, SCIP_HEURTIMING heurtiming, SCIP_Bool nodeinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_BRANCHEXECLP(x) SCIP_RETCODE x (SCIP* scip, SCIP_BRANCHRULE* branchrule, SCIP_Bool allowaddcons, SCIP_RESULT* result)
#define SCIP_DECL_PROBDELORIG(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA** probdata)
#define SCIP_DECL_PROBTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA* sourcedata, SCIP_PROBDATA** targetdata)
#define SCIP_DECL_PROBDELTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA** probdata)

SCIP_RETCODE SCIPcreate(SCIP** scip);
SCIP_RETCODE SCIPbranchLP(SCIP* scip, SCIP_RESULT* result);
int SCIPbranchruleGetMaxdepth(SCIP_BRANCHRULE* branchrule);
int SCIPbranchruleGetPriority(SCIP_BRANCHRULE* branchrule);
SCIP_BRANCHRULEDATA* SCIPbranchruleGetData(SCIP_BRANCHRULE* branchrule);
SCIP_Real SCIPbranchruleGetMaxbounddist(SCIP_BRANCHRULE* branchrule);
SCIP_Real SCIPcomputeGap(SCIP_Real eps, SCIP_Real inf, SCIP_Real primalbound, SCIP_Real dualbound);
SCIP_RETCODE SCIPcreateConsBasicKnapsack(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Longint* weights, SCIP_Longint capacity);
SCIP_RETCODE SCIPcreateConsBasicLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs);
SCIP_RETCODE SCIPcreateEmptyRowConshdlr(SCIP* scip, SCIP_ROW** row, SCIP_CONSHDLR* conshdlr, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcreateEmptyRowCons(SCIP* scip, SCIP_ROW** row, SCIP_CONS* cons, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcreateMessagehdlrDefault(SCIP_MESSAGEHDLR** messagehdlr, SCIP_Bool bufferedoutput, const char* filename, SCIP_Bool quiet);
SCIP_RETCODE SCIPmessagehdlrRelease(SCIP_MESSAGEHDLR** messagehdlr);
void SCIPmessagePrintError(const char* formatstr, ...);
void SCIPinfoMessage(SCIP* scip, FILE* file, const char* formatstr, ...);
void SCIPwarningMessage(SCIP* scip, const char* formatstr, ...);
SCIP_BRANCHRULE** SCIPgetBranchrules(SCIP* scip);
int SCIPgetNBranchrules(SCIP* scip);
SCIP_RETCODE SCIPgetTransformedVars(SCIP* scip, int nvars, SCIP_VAR** vars, SCIP_VAR** transvars);
SCIP_RETCODE SCIPincludeBranchruleFullstrong(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleMostinf(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleRelpscost(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchrulePscost(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleRandom(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleInference(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrIntegral(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrKnapsack(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrLinear(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrVarbound(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrSetppc(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrLogicor(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurDps(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurFeaspump(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselBreadthfirst(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselDfs(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselEstimate(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselBfs(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaGomory(SCIP* scip);
SCIP_RETCODE SCIPsetBranchruleMaxdepth(SCIP* scip, SCIP_BRANCHRULE* branchrule, int maxdepth);
SCIP_RETCODE SCIPsetBranchrulePriority(SCIP* scip, SCIP_BRANCHRULE* branchrule, int priority);
unsigned int SCIPinitializeRandomSeed(SCIP* scip, unsigned int initialseedvalue);
SCIP_RETCODE SCIPcreateVar(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE vartype, SCIP_Bool initial, SCIP_Bool removable, void* vardelorig, void* vartrans, void* vardeltrans, void* varcopy, SCIP_VARDATA* vardata);
SCIP_RETCODE SCIPcreateProb(SCIP* scip, const char* name, SCIP_DECL_PROBDELORIG((*probdelorig)), SCIP_DECL_PROBTRANS((*probtrans)), SCIP_DECL_PROBDELTRANS((*probdeltrans)), void* probinitsol, void* probexitsol, void* probcopy, SCIP_PROBDATA* probdata);
SCIP_PROBDATA* SCIPgetProbData(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrBasic(SCIP* scip, SCIP_CONSHDLR** conshdlrptr, const char* name, const char* desc, int enfopriority, int chckpriority, int eagerfreq, SCIP_Bool needscons, SCIP_DECL_CONSENFOLP((*consenfolp)), SCIP_DECL_CONSENFOPS((*consenfops)), SCIP_DECL_CONSCHECK((*conscheck)), SCIP_DECL_CONSLOCK((*conslock)), SCIP_CONSHDLRDATA* conshdlrdata);
SCIP_RETCODE SCIPsetConshdlrSepa(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSSEPALP((*conssepalp)), SCIP_DECL_CONSSEPASOL((*conssepasol)), int sepafreq, int sepapriority, SCIP_Bool delaysepa);
SCIP_RETCODE SCIPsetConshdlrProp(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSPROP((*consprop)), int propfreq, SCIP_Bool delayprop, SCIP_PROPTIMING proptiming);
SCIP_RETCODE SCIPsetConshdlrFree(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSFREE((*consfree)));
SCIP_RETCODE SCIPsetConshdlrInit(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSINIT((*consinit)));
SCIP_RETCODE SCIPsetConshdlrExit(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSEXIT((*consexit)));
SCIP_RETCODE SCIPsetConshdlrInitsol(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSINITSOL((*consinitsol)));
SCIP_RETCODE SCIPsetConshdlrExitsol(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSEXITSOL((*consexitsol)));
SCIP_RETCODE SCIPsetConshdlrDelete(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSDELETE((*consdelete)));
SCIP_RETCODE SCIPsetConshdlrTrans(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSTRANS((*constrans)));
SCIP_RETCODE SCIPsetConshdlrInitlp(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSINITLP((*consinitlp)));
SCIP_RETCODE SCIPsetConshdlrPrint(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSPRINT((*consprint)));
SCIP_RETCODE SCIPsetConshdlrDelvars(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSDELVARS((*consdelvars)));
SCIP_CONSHDLRDATA* SCIPconshdlrGetData(SCIP_CONSHDLR* conshdlr);
const char* SCIPconshdlrGetName(SCIP_CONSHDLR* conshdlr);
void SCIPconshdlrSetData(SCIP_CONSHDLR* conshdlr, SCIP_CONSHDLRDATA* conshdlrdata);
SCIP_CONSHDLR* SCIPfindConshdlr(SCIP* scip, const char* name);
SCIP_CONSDATA* SCIPconsGetData(SCIP_CONS* cons);
SCIP_CONSHDLR* SCIPconsGetHdlr(SCIP_CONS* cons);
SCIP_RETCODE SCIPincludeEventhdlrBasic(SCIP* scip, SCIP_EVENTHDLR** eventhdlrptr, const char* name, const char* desc, SCIP_DECL_EVENTEXEC((*eventexec)), SCIP_EVENTHDLRDATA* eventhdlrdata);
SCIP_RETCODE SCIPsetEventhdlrFree(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTFREE((*eventfree)));
SCIP_RETCODE SCIPsetEventhdlrInit(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTINIT((*eventinit)));
SCIP_RETCODE SCIPsetEventhdlrExit(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTEXIT((*eventexit)));
SCIP_RETCODE SCIPsetEventhdlrInitsol(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTINITSOL((*eventinitsol)));
SCIP_RETCODE SCIPsetEventhdlrExitsol(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTEXITSOL((*eventexitsol)));
SCIP_RETCODE SCIPsetEventhdlrDelete(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTDELETE((*eventdelete)));
SCIP_EVENTHDLRDATA* SCIPeventhdlrGetData(SCIP_EVENTHDLR* eventhdlr);
const char* SCIPeventhdlrGetName(SCIP_EVENTHDLR* eventhdlr);
SCIP_RETCODE SCIPincludeHeurBasic(SCIP* scip, SCIP_HEUR** heur, const char* name, const char* desc, char dispchar, int priority, int freq, int freqofs, int maxdepth, SCIP_HEURTIMING timingmask, SCIP_Bool usessubscip, SCIP_DECL_HEUREXEC((*heurexec)), SCIP_HEURDATA* heurdata);
SCIP_HEURDATA* SCIPheurGetData(SCIP_HEUR* heur);
SCIP_RETCODE SCIPincludeBranchruleBasic(SCIP* scip, SCIP_BRANCHRULE** branchruleptr, const char* name, const char* desc, int priority, int maxdepth, SCIP_Real maxbounddist, SCIP_BRANCHRULEDATA* branchruledata);
SCIP_RETCODE SCIPsetBranchruleExecLp(SCIP* scip, SCIP_BRANCHRULE* branchrule, SCIP_DECL_BRANCHEXECLP((*branchexeclp)));
SCIP_VAR* SCIPvarGetTransVar(SCIP_VAR* var);
SCIP_VAR* SCIPfindVar(SCIP* scip, const char* name);
SCIP_RETCODE SCIPcreateSolCopy(SCIP* scip, SCIP_SOL** sol, SCIP_SOL* sourcesol);
SCIP_Bool SCIPisPresolveFinished(SCIP* scip);
SCIP_RETCODE SCIPfree(SCIP** scip);
SCIP_RETCODE SCIPcopy(SCIP* sourcescip, SCIP* targetscip, SCIP_HASHMAP* varmap, SCIP_HASHMAP* consmap, const char* suffix, SCIP_Bool globalcopy, SCIP_Bool enablepricing, SCIP_Bool threadsafe, SCIP_Bool passmessagehdlr, SCIP_Bool* valid);
SCIP_RETCODE SCIPcopyOrig(SCIP* sourcescip, SCIP* targetscip, SCIP_HASHMAP* varmap, SCIP_HASHMAP* consmap, const char* suffix, SCIP_Bool enablepricing, SCIP_Bool threadsafe, SCIP_Bool passmessagehdlr, SCIP_Bool* valid);
SCIP_RETCODE SCIPcopyOrigVars(SCIP* sourcescip, SCIP* targetscip, SCIP_HASHMAP* varmap, SCIP_HASHMAP* consmap, SCIP_VAR** fixedvars, SCIP_Real* fixedvals, int nfixedvars);
SCIP_RETCODE SCIPcopyOrigConss(SCIP* sourcescip, SCIP* targetscip, SCIP_HASHMAP* varmap, SCIP_HASHMAP* consmap, SCIP_Bool enablepricing, SCIP_Bool* valid);
SCIP_RETCODE SCIPsetMessagehdlr(SCIP* scip, SCIP_MESSAGEHDLR* messagehdlr);
void SCIPsetMessagehdlrQuiet(SCIP* scip, SCIP_Bool quiet);
void SCIPsetMessagehdlrLogfile(SCIP* scip, const char* filename);
SCIP_Real SCIPversion();
int SCIPmajorVersion();
int SCIPminorVersion();
int SCIPtechVersion();
void SCIPprintVersion(SCIP* scip, FILE* outfile);
void SCIPprintExternalCodes(SCIP* scip, FILE* outfile);
SCIP_Real SCIPgetTotalTime(SCIP* scip);
SCIP_Real SCIPgetSolvingTime(SCIP* scip);
SCIP_Real SCIPgetReadingTime(SCIP* scip);
SCIP_Real SCIPgetPresolvingTime(SCIP* scip);
SCIP_Real SCIPgetDeterministicTime(SCIP* scip);
SCIP_STAGE SCIPgetStage(SCIP* scip);
SCIP_RETCODE SCIPsetProbName(SCIP* scip, const char* name);
const char* SCIPgetProbName(SCIP* scip);
SCIP_RETCODE SCIPstartDive(SCIP* scip);
SCIP_RETCODE SCIPchgVarObjDive(SCIP* scip, SCIP_VAR* var, SCIP_Real newobj);
SCIP_RETCODE SCIPchgVarLbDive(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarUbDive(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_Real SCIPgetVarLbDive(SCIP* scip, SCIP_VAR* var);
SCIP_Real SCIPgetVarUbDive(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPsolveDiveLP(SCIP* scip, int itlim, SCIP_Bool* lperror, SCIP_Bool* cutoff);
SCIP_RETCODE SCIPchgRowLhsDive(SCIP* scip, SCIP_ROW* row, SCIP_Real newlhs);
SCIP_RETCODE SCIPchgRowRhsDive(SCIP* scip, SCIP_ROW* row, SCIP_Real newrhs);
SCIP_RETCODE SCIPaddRowDive(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPendDive(SCIP* scip);
SCIP_RETCODE SCIPstartProbing(SCIP* scip);
SCIP_RETCODE SCIPnewProbingNode(SCIP* scip);
int SCIPgetProbingDepth(SCIP* scip);
SCIP_RETCODE SCIPbacktrackProbing(SCIP* scip, int probingdepth);
SCIP_RETCODE SCIPchgVarObjProbing(SCIP* scip, SCIP_VAR* var, SCIP_Real newobj);
SCIP_RETCODE SCIPchgVarUbProbing(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarLbProbing(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPsolveProbingLP(SCIP* scip, int itlim, SCIP_Bool* lperror, SCIP_Bool* cutoff);
SCIP_RETCODE SCIPsolveProbingLPWithPricing(SCIP* scip, SCIP_Bool pretendroot, SCIP_Bool displayinfo, int maxpricerounds, SCIP_Bool* lperror, SCIP_Bool* cutoff);
SCIP_RETCODE SCIPendProbing(SCIP* scip);
SCIP_RETCODE SCIPfixVarProbing(SCIP* scip, SCIP_VAR* var, SCIP_Real fixedval);
SCIP_Bool SCIPisObjChangedProbing(SCIP* scip);
SCIP_Bool SCIPinProbing(SCIP* scip);
SCIP_RETCODE SCIPapplyCutsProbing(SCIP* scip, SCIP_Bool* cutoff);
SCIP_RETCODE SCIPpropagateProbing(SCIP* scip, int maxproprounds, SCIP_Bool* cutoff, SCIP_Longint* ndomredsfound);
SCIP_RETCODE SCIPcatchEvent(SCIP* scip, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int* filterpos);
SCIP_RETCODE SCIPdropEvent(SCIP* scip, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int filterpos);
SCIP_RETCODE SCIPcatchVarEvent(SCIP* scip, SCIP_VAR* var, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int* filterpos);
SCIP_RETCODE SCIPdropVarEvent(SCIP* scip, SCIP_VAR* var, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int filterpos);
SCIP_RETCODE SCIPcatchRowEvent(SCIP* scip, SCIP_ROW* row, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int* filterpos);
SCIP_RETCODE SCIPdropRowEvent(SCIP* scip, SCIP_ROW* row, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int filterpos);
SCIP_EVENTHDLR* SCIPfindEventhdlr(SCIP* scip, const char* name);
SCIP_EVENTTYPE SCIPeventGetType(SCIP_EVENT* event);
SCIP_Real SCIPeventGetNewbound(SCIP_EVENT* event);
SCIP_Real SCIPeventGetOldbound(SCIP_EVENT* event);
SCIP_VAR* SCIPeventGetVar(SCIP_EVENT* event);
SCIP_NODE* SCIPeventGetNode(SCIP_EVENT* event);
SCIP_ROW* SCIPeventGetRow(SCIP_EVENT* event);
SCIP_RETCODE SCIPinterruptSolve(SCIP* scip);
SCIP_RETCODE SCIPrestartSolve(SCIP* scip);
SCIP_RETCODE SCIPcreateProbBasic(SCIP* scip, const char* name);
SCIP_RETCODE SCIPfreeProb(SCIP* scip);
SCIP_RETCODE SCIPaddVar(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPdelVar(SCIP* scip, SCIP_VAR* var, SCIP_Bool* deleted);
SCIP_RETCODE SCIPaddCons(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPdelCons(SCIP* scip, SCIP_CONS* cons);
SCIP_CONS** SCIPgetOrigConss(SCIP* scip);
int SCIPgetNOrigConss(SCIP* scip);
SCIP_CONS* SCIPfindOrigCons(SCIP* scip, const char*);
SCIP_CONS* SCIPfindCons(SCIP* scip, const char*);
SCIP_RETCODE SCIPsetObjsense(SCIP* scip, SCIP_OBJSENSE objsense);
SCIP_OBJSENSE SCIPgetObjsense(SCIP* scip);
SCIP_RETCODE SCIPsetObjlimit(SCIP* scip, SCIP_Real objlimit);
SCIP_Real SCIPgetObjlimit(SCIP* scip);
SCIP_Real SCIPgetObjNorm(SCIP* scip);
SCIP_RETCODE SCIPaddObjoffset(SCIP* scip, SCIP_Real addval);
SCIP_RETCODE SCIPaddOrigObjoffset(SCIP* scip, SCIP_Real addval);
SCIP_Real SCIPgetOrigObjoffset(SCIP* scip);
SCIP_Real SCIPgetTransObjoffset(SCIP* scip);
SCIP_RETCODE SCIPsetPresolving(SCIP* scip, SCIP_PARAMSETTING paramsetting, SCIP_Bool quiet);
SCIP_RETCODE SCIPsetSeparating(SCIP* scip, SCIP_PARAMSETTING paramsetting, SCIP_Bool quiet);
SCIP_RETCODE SCIPsetHeuristics(SCIP* scip, SCIP_PARAMSETTING paramsetting, SCIP_Bool quiet);
SCIP_RETCODE SCIPwriteOrigProblem(SCIP* scip, const char* filename, const char* extension, SCIP_Bool genericnames);
SCIP_RETCODE SCIPwriteTransProblem(SCIP* scip, const char* filename, const char* extension, SCIP_Bool genericnames);
SCIP_RETCODE SCIPwriteLP(SCIP* scip, const char*);
SCIP_RETCODE SCIPwriteMIP(SCIP * scip, const char*  filename, SCIP_Bool genericnames, SCIP_Bool origobj, SCIP_Bool lazyconss);
SCIP_STATUS SCIPgetStatus(SCIP* scip);
SCIP_Real SCIPepsilon(SCIP* scip);
SCIP_Real SCIPfeastol(SCIP* scip);
SCIP_RETCODE SCIPsetObjIntegral(SCIP* scip);
SCIP_Bool SCIPisObjIntegral(SCIP* scip);
SCIP_Real SCIPgetLocalOrigEstimate(SCIP* scip);
SCIP_Real SCIPgetLocalTransEstimate(SCIP* scip);
SCIP_RETCODE SCIPsolve(SCIP* scip);
SCIP_RETCODE SCIPfreeTransform(SCIP* scip);
SCIP_RETCODE SCIPpresolve(SCIP* scip);
SCIP_NODE* SCIPgetFocusNode(SCIP* scip);
SCIP_NODE* SCIPgetCurrentNode(SCIP* scip);
SCIP_NODE* SCIPnodeGetParent(SCIP_NODE* node);
SCIP_Longint SCIPnodeGetNumber(SCIP_NODE* node);
int SCIPnodeGetDepth(SCIP_NODE* node);
SCIP_Real SCIPnodeGetLowerbound(SCIP_NODE* node);
SCIP_RETCODE SCIPupdateNodeLowerbound(SCIP* scip, SCIP_NODE* node, SCIP_Real newbound);
SCIP_Real SCIPnodeGetEstimate(SCIP_NODE* node);
SCIP_NODETYPE SCIPnodeGetType(SCIP_NODE* node);
SCIP_Bool SCIPnodeIsActive(SCIP_NODE* node);
SCIP_Bool SCIPnodeIsPropagatedAgain(SCIP_NODE* node);
SCIP_Real SCIPcalcNodeselPriority(SCIP* scip, SCIP_VAR* var, SCIP_BRANCHDIR branchdir, SCIP_Real targetvalue);
SCIP_Real SCIPcalcChildEstimate(SCIP* scip, SCIP_VAR* var, SCIP_Real targetvalue);
SCIP_RETCODE SCIPcreateChild(SCIP* scip, SCIP_NODE** node, SCIP_Real nodeselprio, SCIP_Real estimate);
SCIP_Bool SCIPinRepropagation(SCIP* scip);
SCIP_RETCODE SCIPaddConsNode(SCIP* scip, SCIP_NODE* node, SCIP_CONS* cons, SCIP_NODE* validnode);
SCIP_RETCODE SCIPaddConsLocal(SCIP* scip, SCIP_CONS* cons, SCIP_NODE* validnode);
void SCIPnodeGetParentBranchings(SCIP_NODE* node, SCIP_VAR** branchvars, SCIP_Real* branchbounds, SCIP_BOUNDTYPE* boundtypes, int* nbranchvars, int branchvarssize);
void SCIPnodeGetAddedConss(SCIP_NODE* node, SCIP_CONS** addedconss, int* naddedconss, int addedconsssize);
void SCIPnodeGetNDomchg(SCIP_NODE* node, int* nbranchings, int* nconsprop, int* nprop);
SCIP_DOMCHG* SCIPnodeGetDomchg(SCIP_NODE* node);
int SCIPdomchgGetNBoundchgs(SCIP_DOMCHG* domchg);
SCIP_BOUNDCHG* SCIPdomchgGetBoundchg(SCIP_DOMCHG* domchg, int pos);
SCIP_Real SCIPboundchgGetNewbound(SCIP_BOUNDCHG* boundchg);
SCIP_VAR* SCIPboundchgGetVar(SCIP_BOUNDCHG* boundchg);
SCIP_BOUNDCHGTYPE SCIPboundchgGetBoundchgtype(SCIP_BOUNDCHG* boundchg);
SCIP_BOUNDTYPE SCIPboundchgGetBoundtype(SCIP_BOUNDCHG* boundchg);
SCIP_Bool SCIPboundchgIsRedundant(SCIP_BOUNDCHG* boundchg);
SCIP_RETCODE SCIPcreateVarBasic(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE vartype);
SCIP_RETCODE SCIPchgVarObj(SCIP* scip, SCIP_VAR* var, SCIP_Real newobj);
SCIP_RETCODE SCIPchgVarLb(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarUb(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarLbGlobal(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarUbGlobal(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarLbNode(SCIP* scip, SCIP_NODE* node, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarUbNode(SCIP* scip, SCIP_NODE* node, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPtightenVarLb(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound, SCIP_Bool force, SCIP_Bool* infeasible, SCIP_Bool* tightened);
SCIP_RETCODE SCIPtightenVarUb(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound, SCIP_Bool force, SCIP_Bool* infeasible, SCIP_Bool* tightened);
SCIP_RETCODE SCIPtightenVarLbGlobal(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound, SCIP_Bool force, SCIP_Bool* infeasible, SCIP_Bool* tightened);
SCIP_RETCODE SCIPtightenVarUbGlobal(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound, SCIP_Bool force, SCIP_Bool* infeasible, SCIP_Bool* tightened);
SCIP_RETCODE SCIPfixVar(SCIP* scip, SCIP_VAR* var, SCIP_Real fixedval, SCIP_Bool* infeasible, SCIP_Bool* fixed);
SCIP_RETCODE SCIPchgVarType(SCIP* scip, SCIP_VAR* var, SCIP_VARTYPE vartype, SCIP_Bool* infeasible);
SCIP_RETCODE SCIPmarkDoNotAggrVar(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPmarkDoNotMultaggrVar(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPcaptureVar(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPaddPricedVar(SCIP* scip, SCIP_VAR* var, SCIP_Real score);
SCIP_RETCODE SCIPreleaseVar(SCIP* scip, SCIP_VAR** var);
SCIP_RETCODE SCIPtransformVar(SCIP* scip, SCIP_VAR* var, SCIP_VAR** transvar);
SCIP_RETCODE SCIPgetTransformedVar(SCIP* scip, SCIP_VAR* var, SCIP_VAR** transvar);
SCIP_RETCODE SCIPaddVarLocks(SCIP* scip, SCIP_VAR* var, int nlocksdown, int nlocksup);
SCIP_RETCODE SCIPaddVarLocksType(SCIP* scip, SCIP_VAR* var, SCIP_LOCKTYPE locktype, int nlocksdown, int nlocksup);
int SCIPvarGetNLocksDown(SCIP_VAR* var);
int SCIPvarGetNLocksUp(SCIP_VAR* var);
int SCIPvarGetNLocksDownType(SCIP_VAR* var, SCIP_LOCKTYPE locktype);
int SCIPvarGetNLocksUpType(SCIP_VAR* var, SCIP_LOCKTYPE locktype);
SCIP_VAR** SCIPgetVars(SCIP* scip);
SCIP_VAR** SCIPgetOrigVars(SCIP* scip);
const char* SCIPvarGetName(SCIP_VAR* var);
int SCIPvarGetIndex(SCIP_VAR* var);
int SCIPgetNVars(SCIP* scip);
int SCIPgetNOrigVars(SCIP* scip);
int SCIPgetNIntVars(SCIP* scip);
int SCIPgetNBinVars(SCIP* scip);
int SCIPgetNImplVars(SCIP* scip);
int SCIPgetNContVars(SCIP* scip);
SCIP_VARTYPE SCIPvarGetType(SCIP_VAR* var);
SCIP_Bool SCIPvarIsBinary(SCIP_VAR* var);
SCIP_Bool SCIPvarIsIntegral(SCIP_VAR* var);
SCIP_Bool SCIPvarIsImpliedIntegral(SCIP_VAR* var);
SCIP_Bool SCIPvarIsNonimpliedIntegral(SCIP_VAR* var);
SCIP_IMPLINTTYPE SCIPvarGetImplType(SCIP_VAR* var);
SCIP_VARSTATUS SCIPvarGetStatus(SCIP_VAR* var);
SCIP_Bool SCIPvarIsOriginal(SCIP_VAR* var);
SCIP_Bool SCIPvarIsTransformed(SCIP_VAR* var);
SCIP_Bool SCIPvarIsActive(SCIP_VAR* var);
SCIP_COL* SCIPvarGetCol(SCIP_VAR* var);
SCIP_Bool SCIPvarIsInLP(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbOriginal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbOriginal(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbGlobal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbGlobal(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbLocal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbLocal(SCIP_VAR* var);
SCIP_Real SCIPvarGetObj(SCIP_VAR* var);
SCIP_Real SCIPvarGetLPSol(SCIP_VAR* var);
void SCIPvarSetData(SCIP_VAR* var, SCIP_VARDATA* vardata);
SCIP_VARDATA* SCIPvarGetData(SCIP_VAR* var);
SCIP_Real SCIPvarGetAvgSol(SCIP_VAR* var);
void SCIPvarMarkRelaxationOnly(SCIP_VAR* var);
SCIP_Bool SCIPvarIsRelaxationOnly(SCIP_VAR* var);
void SCIPvarMarkDeletable(SCIP_VAR* var);
SCIP_Bool SCIPvarIsDeletable(SCIP_VAR* var);
SCIP_Real SCIPgetVarPseudocost(SCIP* scip, SCIP_VAR* var, SCIP_BRANCHDIR dir);
SCIP_Real SCIPgetVarPseudocostScore(SCIP* scip, SCIP_VAR* var, SCIP_Real solval);
SCIP_Real SCIPvarGetCutoffSum(SCIP_VAR* var, SCIP_BRANCHDIR dir);
SCIP_Longint SCIPvarGetNBranchings(SCIP_VAR* var, SCIP_BRANCHDIR dir);
SCIP_Longint SCIPvarGetNBranchingsCurrentRun(SCIP_VAR* var, SCIP_BRANCHDIR dir);
SCIP_Bool SCIPvarMayRoundUp(SCIP_VAR* var);
SCIP_Bool SCIPvarMayRoundDown(SCIP_VAR* var);
SCIP_Real SCIPadjustedVarLb(SCIP* scip, SCIP_VAR* var, SCIP_Real lb);
SCIP_Real SCIPadjustedVarUb(SCIP* scip, SCIP_VAR* var, SCIP_Real ub);
SCIP_RETCODE SCIPaggregateVars(SCIP* scip, SCIP_VAR* varx, SCIP_VAR* vary, SCIP_Real scalarx, SCIP_Real scalary, SCIP_Real rhs, SCIP_Bool* infeasible, SCIP_Bool* redundant, SCIP_Bool* aggregated);
SCIP_RETCODE SCIPgetLPColsData(SCIP* scip, SCIP_COL*** cols, int* ncols);
SCIP_RETCODE SCIPgetLPRowsData(SCIP* scip, SCIP_ROW*** rows, int* nrows);
SCIP_RETCODE SCIPgetLPBasisInd(SCIP* scip, int* basisind);
SCIP_RETCODE SCIPgetLPBInvRow(SCIP* scip, int r, SCIP_Real* coefs, int* inds, int* ninds);
SCIP_RETCODE SCIPgetLPBInvARow(SCIP* scip, int r, SCIP_Real* binvrow, SCIP_Real* coefs, int* inds, int* ninds);
SCIP_RETCODE SCIPconstructLP(SCIP* scip, SCIP_Bool* cutoff);
SCIP_Real SCIPgetLPObjval(SCIP* scip);
SCIP_Bool SCIPisLPSolBasic(SCIP* scip);
SCIP_LPSOLSTAT SCIPgetLPSolstat(SCIP* scip);
int SCIPgetNLPRows(SCIP* scip);
int SCIPgetNLPCols(SCIP* scip);
SCIP_COL** SCIPgetLPCols(SCIP* scip);
SCIP_ROW** SCIPgetLPRows(SCIP* scip);
SCIP_Bool SCIPallColsInLP(SCIP* scip);
SCIP_RETCODE SCIPaddPoolCut(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetCutEfficacy(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* cut);
SCIP_Bool SCIPisCutEfficacious(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* cut);
SCIP_Real SCIPgetCutLPSolCutoffDistance(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* cut);
int SCIPgetNCuts(SCIP* scip);
int SCIPgetNCutsApplied(SCIP* scip);
SCIP_RETCODE SCIPseparateSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool pretendroot, SCIP_Bool allowlocal, SCIP_Bool onlydelayed, SCIP_Bool* delayed, SCIP_Bool* cutoff);
SCIP_RETCODE SCIPcaptureCons(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPreleaseCons(SCIP* scip, SCIP_CONS** cons);
SCIP_RETCODE SCIPtransformCons(SCIP* scip, SCIP_CONS* cons, SCIP_CONS** transcons);
SCIP_RETCODE SCIPgetTransformedCons(SCIP* scip, SCIP_CONS* cons, SCIP_CONS** transcons);
SCIP_RETCODE SCIPgetConsVars(SCIP* scip, SCIP_CONS* cons, SCIP_VAR** vars, int varssize, SCIP_Bool* success);
SCIP_RETCODE SCIPgetConsVals(SCIP* scip, SCIP_CONS* cons, SCIP_Real* vals, int valssize, SCIP_Bool* success);
SCIP_RETCODE SCIPgetConsNVars(SCIP* scip, SCIP_CONS* cons, int* nvars, SCIP_Bool* success);
SCIP_CONS** SCIPgetConss(SCIP* scip);
const char* SCIPconsGetName(SCIP_CONS* cons);
int SCIPgetNConss(SCIP* scip);
SCIP_Bool SCIPconsIsOriginal(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsTransformed(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsInitial(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsSeparated(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsEnforced(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsChecked(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsPropagated(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsLocal(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsModifiable(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsDynamic(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsRemovable(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsStickingAtNode(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsActive(SCIP_CONS* cons);
SCIP_RETCODE SCIPdelConsLocal(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPsetConsChecked(SCIP* scip, SCIP_CONS* cons, SCIP_Bool check);
SCIP_RETCODE SCIPsetConsRemovable(SCIP* scip, SCIP_CONS* cons, SCIP_Bool removable);
SCIP_RETCODE SCIPsetConsInitial(SCIP* scip, SCIP_CONS* cons, SCIP_Bool initial);
SCIP_RETCODE SCIPsetConsModifiable(SCIP* scip, SCIP_CONS* cons, SCIP_Bool modifiable);
SCIP_RETCODE SCIPsetConsEnforced(SCIP* scip, SCIP_CONS* cons, SCIP_Bool enforce);
SCIP_SOL** SCIPgetSols(SCIP* scip);
int SCIPgetNSols(SCIP* scip);
int SCIPgetNSolsFound(SCIP* scip);
int SCIPgetNLimSolsFound(SCIP* scip);
int SCIPgetNBestSolsFound(SCIP* scip);
SCIP_SOL* SCIPgetBestSol(SCIP* scip);
SCIP_Real SCIPgetSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var);
SCIP_Bool SCIPsolIsOriginal(SCIP_SOL* sol);
SCIP_RETCODE SCIPwriteVarName(SCIP* scip, FILE* outfile, SCIP_VAR* var, SCIP_Bool vartype);
SCIP_Real SCIPgetSolOrigObj(SCIP* scip, SCIP_SOL* sol);
SCIP_Real SCIPgetSolTransObj(SCIP* scip, SCIP_SOL* sol);
SCIP_RETCODE SCIPcreateSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPcreatePartialSol(SCIP* scip, SCIP_SOL** sol,SCIP_HEUR* heur);
SCIP_RETCODE SCIPcreateOrigSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPcreateLPSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPsetSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var, SCIP_Real val);
SCIP_RETCODE SCIPtrySolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* stored);
SCIP_RETCODE SCIPtrySol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* stored);
SCIP_RETCODE SCIPfreeSol(SCIP* scip, SCIP_SOL** sol);
SCIP_RETCODE SCIPprintBestSol(SCIP* scip, FILE* outfile, SCIP_Bool printzeros);
SCIP_RETCODE SCIPprintBestTransSol(SCIP* scip, FILE* outfile, SCIP_Bool printzeros);
SCIP_RETCODE SCIPprintSol(SCIP* scip, SCIP_SOL* sol, FILE* outfile, SCIP_Bool printzeros);
SCIP_RETCODE SCIPprintTransSol(SCIP* scip, SCIP_SOL* sol, FILE* outfile, SCIP_Bool printzeros);
SCIP_Real SCIPgetFirstPrimalBound(SCIP* scip);
SCIP_Real SCIPgetPrimalbound(SCIP* scip);
SCIP_Real SCIPgetGap(SCIP* scip);
int SCIPgetDepth(SCIP* scip);
SCIP_RETCODE SCIPcutoffNode(SCIP* scip, SCIP_NODE* node);
SCIP_Bool SCIPhasPrimalRay(SCIP* scip);
SCIP_Real SCIPgetPrimalRayVal(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPaddSolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool* stored);
SCIP_RETCODE SCIPaddSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool* stored);
SCIP_RETCODE SCIPreadSol(SCIP* scip, const char* filename);
SCIP_RETCODE SCIPreadSolFile(SCIP* scip, const char* filename, SCIP_SOL* sol, SCIP_Bool xml, SCIP_Bool* partial, SCIP_Bool* error);
SCIP_RETCODE SCIPcheckSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* feasible);
SCIP_RETCODE SCIPcheckSolOrig(SCIP* scip, SCIP_SOL* sol, SCIP_Bool* feasible, SCIP_Bool printreason, SCIP_Bool completely);
SCIP_RETCODE SCIPretransformSol(SCIP* scip, SCIP_SOL* sol);
SCIP_RETCODE SCIPtranslateSubSol(SCIP* scip, SCIP* subscip, SCIP_SOL* subsol, SCIP_HEUR* heur, SCIP_VAR** subvars, SCIP_SOL** newsol);
SCIP_SOLORIGIN SCIPsolGetOrigin(SCIP_SOL* sol);
SCIP_Real SCIPgetSolTime(SCIP* scip, SCIP_SOL* sol);
SCIP_RETCODE SCIPsetRelaxSolVal(SCIP* scip, SCIP_RELAX* relax, SCIP_VAR* var, SCIP_Real val);
void SCIPenableDebugSol(SCIP* scip);
void SCIPdisableDebugSol(SCIP* scip);
SCIP_RETCODE SCIPaddRow(SCIP* scip, SCIP_ROW* row, SCIP_Bool forcecut, SCIP_Bool* infeasible);
SCIP_RETCODE SCIPcreateEmptyRowSepa(SCIP* scip, SCIP_ROW** row, SCIP_SEPA* sepa, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcreateEmptyRowUnspec(SCIP* scip, SCIP_ROW** row, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_Real SCIPgetRowActivity(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetRowLPActivity(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPreleaseRow(SCIP* scip, SCIP_ROW** row);
SCIP_RETCODE SCIPcacheRowExtensions(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPflushRowExtensions(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPaddVarToRow(SCIP* scip, SCIP_ROW* row, SCIP_VAR* var, SCIP_Real val);
SCIP_RETCODE SCIPprintRow(SCIP* scip, SCIP_ROW* row, FILE* file);
int SCIPgetRowNumIntCols(SCIP* scip, SCIP_ROW* row);
int SCIProwGetNNonz(SCIP_ROW* row);
SCIP_Real SCIPgetRowObjParallelism(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetColRedcost(SCIP* scip, SCIP_COL* col);
SCIP_Real SCIPgetDualbound(SCIP* scip);
SCIP_Real SCIPgetDualboundRoot(SCIP* scip);
SCIP_Real SCIPgetVarRedcost(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPgetDualSolVal(SCIP* scip, SCIP_CONS* cons, SCIP_Real* dualsolval, SCIP_Bool* boundconstraint);
int SCIPgetNReaders(SCIP* scip);
SCIP_PRICER* SCIPfindPricer(SCIP* scip, const char* name);
SCIP_RETCODE SCIPactivatePricer(SCIP* scip, SCIP_PRICER* pricer);
SCIP_RETCODE SCIPdeactivatePricer(SCIP* scip, SCIP_PRICER* pricer);
SCIP_PRICERDATA* SCIPpricerGetData(SCIP_PRICER* pricer);
SCIP_RETCODE SCIPcreateCons(SCIP* scip, SCIP_CONS** cons, const char* name, SCIP_CONSHDLR* conshdlr, SCIP_CONSDATA* consdata, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_PRESOLDATA* SCIPpresolGetData(SCIP_PRESOL* presol);
SCIP_SEPADATA* SCIPsepaGetData(SCIP_SEPA* sepa);
SCIP_SEPA* SCIPfindSepa(SCIP* scip, const char* name);
SCIP_HEUR* SCIPfindHeur(SCIP* scip, const char* name);
SCIP_HEURTIMING SCIPheurGetTimingmask(SCIP_HEUR* heur);
void SCIPheurSetTimingmask(SCIP_HEUR* heur, SCIP_HEURTIMING timingmask);
SCIP_RELAXDATA* SCIPrelaxGetData(SCIP_RELAX* relax);
SCIP_RELAX* SCIPfindRelax(SCIP* scip, const char* name);
SCIP_NODESELDATA* SCIPnodeselGetData(SCIP_NODESEL* nodesel);
const char* SCIPbranchruleGetName(SCIP_BRANCHRULE* branchrule);
SCIP_BRANCHRULE* SCIPfindBranchrule(SCIP* scip, const char* name);
SCIP_RETCODE SCIPbranchVar(SCIP* scip, SCIP_VAR* var, SCIP_NODE** downchild, SCIP_NODE** eqchild, SCIP_NODE** upchild);
SCIP_RETCODE SCIPbranchVarVal(SCIP* scip, SCIP_VAR* var, SCIP_Real val, SCIP_NODE** downchild, SCIP_NODE** eqchild, SCIP_NODE** upchild);
int SCIPgetNLPBranchCands(SCIP* scip);
SCIP_RETCODE SCIPgetLPBranchCands(SCIP* scip, SCIP_VAR*** lpcands, SCIP_Real** lpcandssol, SCIP_Real** lpcandsfrac, int* nlpcands, int* npriolpcands, int* nfracimplvars);
SCIP_RETCODE SCIPgetPseudoBranchCands(SCIP* scip, SCIP_VAR*** pseudocands, int* npseudocands, int* npriopseudocands);
SCIP_RETCODE SCIPstartStrongbranch(SCIP* scip, SCIP_Bool enablepropogation);
SCIP_RETCODE SCIPendStrongbranch(SCIP* scip);
SCIP_RETCODE SCIPgetVarStrongbranchLast(SCIP* scip, SCIP_VAR* var, SCIP_Real* down, SCIP_Real* up, SCIP_Bool* downvalid, SCIP_Bool* upvalid, SCIP_Real* solval, SCIP_Real* lpobjval);
SCIP_Longint SCIPgetVarStrongbranchNode(SCIP* scip, SCIP_VAR* var);
SCIP_Real SCIPgetBranchScoreMultiple(SCIP* scip, SCIP_VAR* var, int nchildren, SCIP_Real* gains);
SCIP_RETCODE SCIPgetVarStrongbranchWithPropagation(SCIP* scip, SCIP_VAR* var, SCIP_Real solval, SCIP_Real lpobjval, int itlim, int maxproprounds, SCIP_Real* down, SCIP_Real* up, SCIP_Bool* downvalid, SCIP_Bool* upvalid, SCIP_Longint* ndomredsdown, SCIP_Longint* ndomredsup, SCIP_Bool* downinf, SCIP_Bool* upinf, SCIP_Bool* downconflict, SCIP_Bool* upconflict, SCIP_Bool* lperror, SCIP_Real* newlbs, SCIP_Real* newubs);
SCIP_RETCODE SCIPgetVarStrongbranchInt(SCIP* scip, SCIP_VAR* var, int itlim, SCIP_Bool idempotent, SCIP_Real* down, SCIP_Real* up, SCIP_Bool* downvalid, SCIP_Bool* upvalid, SCIP_Bool* downinf, SCIP_Bool* upinf, SCIP_Bool* downconflict, SCIP_Bool* upconflict, SCIP_Bool* lperror);
SCIP_RETCODE SCIPupdateVarPseudocost(SCIP* scip, SCIP_VAR* var, SCIP_Real solvaldelta, SCIP_Real objdelta, SCIP_Real weight);
SCIP_RETCODE SCIPgetVarStrongbranchFrac(SCIP* scip, SCIP_VAR* var, int itlim, SCIP_Bool idempotent, SCIP_Real* down, SCIP_Real* up, SCIP_Bool* downvalid, SCIP_Bool* upvalid, SCIP_Bool* downinf, SCIP_Bool* upinf, SCIP_Bool* downconflict, SCIP_Bool* upconflict, SCIP_Bool* lperror);
SCIP_Real SCIPinfinity(SCIP* scip);
SCIP_Real SCIPfrac(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPfeasFrac(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPfeasFloor(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPfeasCeil(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPfeasRound(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisZero(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasIntegral(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasZero(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasNegative(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasPositive(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisInfinity(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisLE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisLT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisGE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisGT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisEQ(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisFeasEQ(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisFeasLT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisFeasGT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisFeasLE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisFeasGE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisHugeValue(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisPositive(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisNegative(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisIntegral(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPgetTreesizeEstimation(SCIP* scip);
SCIP_RETCODE SCIPenableExactSolving(SCIP* scip, SCIP_Bool enable);
SCIP_Bool SCIPisExact(SCIP* scip);
SCIP_Bool SCIPallowNegSlack(SCIP* scip);
SCIP_RETCODE SCIPbranchLPExact(SCIP* scip, SCIP_RESULT* result);
int SCIPgetNRuns(SCIP* scip);
int SCIPgetNReoptRuns(SCIP* scip);
void SCIPaddNNodes(SCIP* scip, SCIP_Longint nnodes);
SCIP_RETCODE SCIPprintStatistics(SCIP* scip, FILE* outfile);
SCIP_RETCODE SCIPprintStatisticsJson(SCIP* scip, FILE* file);
SCIP_Longint SCIPgetNNodes(SCIP* scip);
SCIP_Longint SCIPgetNTotalNodes(SCIP* scip);
SCIP_Longint SCIPgetNFeasibleLeaves(SCIP* scip);
SCIP_Longint SCIPgetNInfeasibleLeaves(SCIP* scip);
SCIP_Longint SCIPgetNObjlimLeaves(SCIP* scip);
SCIP_Longint SCIPgetNLPs(SCIP* scip);
int SCIPgetNSepaRounds(SCIP* scip);
SCIP_Real SCIPgetAvgLowerbound(SCIP* scip);
SCIP_Real SCIPgetAvgDualbound(SCIP* scip);
SCIP_Real SCIPgetLowerbound(SCIP* scip);
SCIP_Real SCIPgetLowerboundRoot(SCIP* scip);
SCIP_Real SCIPgetCutoffbound(SCIP* scip);
SCIP_Real SCIPgetUpperbound(SCIP* scip);
int SCIPgetMaxDepth(SCIP* scip);
int SCIPgetMaxTotalDepth(SCIP* scip);
SCIP_Longint SCIPgetNBacktracks(SCIP* scip);
int SCIPgetPlungeDepth(SCIP* scip);
SCIP_Real SCIPgetPrimalDualIntegral(SCIP* scip);
SCIP_RETCODE SCIPsetBoolParam(SCIP* scip, const char* name, SCIP_Bool value);
SCIP_RETCODE SCIPsetIntParam(SCIP* scip, const char* name, int value);
SCIP_RETCODE SCIPsetLongintParam(SCIP* scip, const char* name, SCIP_Longint value);
SCIP_RETCODE SCIPsetRealParam(SCIP* scip, const char* name, SCIP_Real value);
SCIP_RETCODE SCIPsetCharParam(SCIP* scip, const char* name, char value);
SCIP_RETCODE SCIPsetStringParam(SCIP* scip, const char* name, const char* value);
SCIP_RETCODE SCIPreadParams(SCIP* scip, const char* file);
SCIP_RETCODE SCIPwriteParams(SCIP* scip, const char* file, SCIP_Bool comments, SCIP_Bool onlychanged);
SCIP_RETCODE SCIPreadProb(SCIP* scip, const char* file, const char* extension);
SCIP_RETCODE SCIPsetEmphasis(SCIP* scip, SCIP_PARAMEMPHASIS paramemphasis, SCIP_Bool quiet);
SCIP_RETCODE SCIPresetParam(SCIP* scip, const char* name);
SCIP_RETCODE SCIPresetParams(SCIP* scip);
int SCIPgetNParams(SCIP* scip);
SCIP_RETCODE SCIPfreeReoptSolve(SCIP* scip);
SCIP_RETCODE SCIPchgReoptObjective(SCIP* scip, SCIP_OBJSENSE objsense, SCIP_VAR** vars, SCIP_Real* coefs, int nvars);
SCIP_RETCODE SCIPenableReoptimization(SCIP* scip, SCIP_Bool enable);
SCIP_Bool SCIPisReoptEnabled(SCIP* scip);
int SCIPnodeGetNAddedConss(SCIP_NODE* node);
SCIP_RETCODE SCIPincludeDefaultPlugins(SCIP* scip);
SCIP_RETCODE SCIPcreateConsLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPaddCoefLinear(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Real val);
SCIP_Real SCIPgetDualsolLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_Real SCIPgetDualfarkasLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_CONSHDLR* SCIProwGetOriginConshdlr(SCIP_ROW* row);
SCIP_RETCODE SCIPchgLhsLinear(SCIP* scip, SCIP_CONS* cons, SCIP_Real lhs);
SCIP_RETCODE SCIPchgRhsLinear(SCIP* scip, SCIP_CONS* cons, SCIP_Real rhs);
SCIP_Real SCIPgetLhsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_Real SCIPgetRhsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_Real SCIPconsGetLhs(SCIP* scip, SCIP_CONS* cons, SCIP_Bool* success);
SCIP_Real SCIPconsGetRhs(SCIP* scip, SCIP_CONS* cons, SCIP_Bool* success);
SCIP_RETCODE SCIPchgCoefLinear(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Real newval);
SCIP_RETCODE SCIPdelCoefLinear(SCIP* scip, SCIP_CONS* cons, SCIP_VAR*);
SCIP_Real SCIPgetActivityLinear(SCIP* scip, SCIP_CONS* cons, SCIP_SOL* sol);
SCIP_VAR** SCIPgetVarsLinear(SCIP* scip, SCIP_CONS* cons);
int SCIPgetNVarsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_Real* SCIPgetValsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_ROW* SCIPgetRowLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPcreateConsKnapsack(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Longint* weights, SCIP_Longint capacity, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPaddCoefKnapsack(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Longint val);
SCIP_Real SCIPgetDualsolKnapsack(SCIP* scip, SCIP_CONS* cons);
SCIP_Real SCIPgetDualfarkasKnapsack(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPchgCapacityKnapsack(SCIP* scip, SCIP_CONS* cons, SCIP_Real rhs);
SCIP_Longint SCIPgetCapacityKnapsack(SCIP* scip, SCIP_CONS* cons);
SCIP_VAR** SCIPgetVarsKnapsack(SCIP* scip, SCIP_CONS* cons);
int SCIPgetNVarsKnapsack(SCIP* scip, SCIP_CONS* cons);
SCIP_Longint* SCIPgetWeightsKnapsack(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPcreateConsCumulative(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, int* durations, int* demands, int capacity, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsSOS1(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* weights, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPaddVarSOS1(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Real weight);
SCIP_RETCODE SCIPappendVarSOS1(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var);
SCIP_RETCODE SCIPcreateConsSOS2(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* weights, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPaddVarSOS2(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Real weight);
SCIP_RETCODE SCIPappendVarSOS2(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var);
SCIP_RETCODE SCIPcreateConsDisjunction(SCIP* scip, SCIP_CONS** cons, const char* name, int nconss, SCIP_CONS** conss, SCIP_CONS* relaxcons, SCIP_Bool initial, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic);
SCIP_RETCODE SCIPaddConsElemDisjunction(SCIP* scip, SCIP_CONS* cons, SCIP_CONS* addcons);
SCIP_RETCODE SCIPcreateConsAnd(SCIP* scip, SCIP_CONS** cons, const char* name, SCIP_VAR* resvar, int nvars, SCIP_VAR** vars, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
int SCIPgetNVarsAnd(SCIP* scip, SCIP_CONS* cons);
SCIP_VAR** SCIPgetVarsAnd(SCIP* scip, SCIP_CONS* cons);
SCIP_VAR* SCIPgetResultantAnd(SCIP* scip, SCIP_CONS* cons);
SCIP_Bool SCIPisAndConsSorted(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPsortAndCons(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPcreateConsOr(SCIP* scip, SCIP_CONS** cons, const char* name, SCIP_VAR* resvar, int nvars, SCIP_VAR** vars, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsXor(SCIP* scip, SCIP_CONS** cons, const char* name, SCIP_Bool rhs, int nvars, SCIP_VAR** vars, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsLogicor(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPaddCoefLogicor(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var);
int SCIPgetNVarsLogicor(SCIP* scip, SCIP_CONS* cons);
SCIP_VAR** SCIPgetVarsLogicor(SCIP* scip, SCIP_CONS* cons);
SCIP_Real SCIPgetDualsolLogicor(SCIP* scip, SCIP_CONS* cons);
SCIP_Real SCIPgetDualfarkasLogicor(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPprintCons(SCIP* scip, SCIP_CONS* cons, FILE* file);
SCIP_Longint SCIPgetMemUsed(SCIP* scip);
SCIP_Longint SCIPgetMemTotal(SCIP* scip);
SCIP_Longint SCIPgetMemExternEstim(SCIP* scip);
SCIP_Bool SCIPisNLPConstructed(SCIP* scip);
int SCIPgetNNLPNlRows(SCIP* scip);
SCIP_RETCODE SCIPcreateConsCardinality(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, int cardval, SCIP_VAR** indvars, SCIP_Real* weights, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPaddVarCardinality(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_VAR* indvar, SCIP_Real weight);
SCIP_RETCODE SCIPappendVarCardinality(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_VAR* indvar);
SCIP_RETCODE SCIPcreateConsIndicator(SCIP* scip, SCIP_CONS** cons, const char* name, SCIP_VAR* binvar, int nvars, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real rhs, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPaddVarIndicator(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Real val);
SCIP_VAR* SCIPgetSlackVarIndicator(SCIP_CONS* cons);
SCIP_CONS* SCIPgetLinearConsIndicator(SCIP_CONS* cons);
void SCIPhashmapFree(SCIP_HASHMAP** hashmap);
SCIP_RETCODE SCIPcopyLargeNeighborhoodSearch(SCIP* sourcescip, SCIP* subscip, SCIP_HASHMAP* varmap, const char* suffix, SCIP_VAR** fixedvars, SCIP_Real* fixedvals, int nfixedvars, SCIP_Bool uselprows, SCIP_Bool copycuts, SCIP_Bool* success, SCIP_Bool* valid);
SCIP_RETCODE SCIPcount(SCIP* scip);
SCIP_RETCODE SCIPsetParamsCountsols(SCIP* scip);
SCIP_Longint SCIPgetNCountedSols(SCIP* scip, SCIP_Bool* valid);
const char* SCIProwGetName(SCIP_ROW* row);
SCIP_Real SCIProwGetLhs(SCIP_ROW* row);
SCIP_Real SCIProwGetRhs(SCIP_ROW* row);
SCIP_Real SCIProwGetConstant(SCIP_ROW* row);
SCIP_Real SCIProwGetDualsol(SCIP_ROW* row);
SCIP_Real SCIProwGetDualfarkas(SCIP_ROW* row);
int SCIProwGetLPPos(SCIP_ROW* row);
SCIP_BASESTAT SCIProwGetBasisStatus(SCIP_ROW* row);
SCIP_Bool SCIProwIsIntegral(SCIP_ROW* row);
SCIP_Bool SCIProwIsLocal(SCIP_ROW* row);
SCIP_Bool SCIProwIsModifiable(SCIP_ROW* row);
SCIP_Bool SCIProwIsRemovable(SCIP_ROW* row);
SCIP_Bool SCIProwIsInGlobalCutpool(SCIP_ROW* row);
int SCIProwGetNLPNonz(SCIP_ROW* row);
SCIP_COL** SCIProwGetCols(SCIP_ROW* row);
SCIP_Real* SCIProwGetVals(SCIP_ROW* row);
SCIP_Real SCIProwGetNorm(SCIP_ROW* row);
SCIP_Real SCIProwGetParallelism(SCIP_ROW* row1, SCIP_ROW* row2, const char orthofunc);
int SCIProwGetAge(SCIP_ROW* row);
SCIP_ROWORIGINTYPE SCIProwGetOrigintype(SCIP_ROW* row);
SCIP_CONS* SCIProwGetOriginCons(SCIP_ROW* row);
int SCIPcolGetLPPos(SCIP_COL* col);
SCIP_BASESTAT SCIPcolGetBasisStatus(SCIP_COL* col);
SCIP_Bool SCIPcolIsIntegral(SCIP_COL* col);
SCIP_VAR* SCIPcolGetVar(SCIP_COL* col);
SCIP_Real SCIPcolGetPrimsol(SCIP_COL* col);
SCIP_Real SCIPcolGetLb(SCIP_COL* col);
SCIP_Real SCIPcolGetUb(SCIP_COL* col);
int SCIPcolGetNLPNonz(SCIP_COL* col);
int SCIPcolGetNNonz(SCIP_COL* col);
SCIP_ROW** SCIPcolGetRows(SCIP_COL* col);
SCIP_Real* SCIPcolGetVals(SCIP_COL* col);
int SCIPcolGetAge(SCIP_COL* col);
int SCIPcolGetIndex(SCIP_COL* col);
SCIP_Real SCIPcolGetObj(SCIP_COL* col);
SCIP_RETCODE SCIPgetOpenNodesData(SCIP* scip, SCIP_NODE*** leaves, SCIP_NODE*** children, SCIP_NODE*** siblings, int* nleaves, int* nchildren, int* nsiblings);
SCIP_RETCODE SCIPgetChildren(SCIP* scip, SCIP_NODE*** children, int* nchildren);
int SCIPgetNChildren(SCIP* scip);
SCIP_NODE* SCIPgetBestChild(SCIP* scip);
SCIP_RETCODE SCIPgetSiblings(SCIP* scip, SCIP_NODE*** siblings, int* nsiblings);
int SCIPgetNSiblings(SCIP* scip);
SCIP_RETCODE SCIPgetLeaves(SCIP* scip, SCIP_NODE*** leaves, int* nleaves);
int SCIPgetNLeaves(SCIP* scip);
int SCIPgetNNodesLeft(SCIP* scip);
SCIP_NODE* SCIPgetBestSibling(SCIP* scip);
SCIP_NODE* SCIPgetBestLeaf(SCIP* scip);
SCIP_NODE* SCIPgetPrioChild(SCIP* scip);
SCIP_NODE* SCIPgetPrioSibling(SCIP* scip);
SCIP_NODE* SCIPgetBestNode(SCIP* scip);
SCIP_NODE* SCIPgetBestboundNode(SCIP* scip);
SCIP_RETCODE SCIPrepropagateNode(SCIP* scip, SCIP_NODE* node);
SCIP_RETCODE SCIPchgVarBranchPriority(SCIP* scip, SCIP_VAR* var, int branchpriority);
SCIP_RETCODE SCIPgetNegatedVar(SCIP* scip, SCIP_VAR* var, SCIP_VAR** negvar);
int SCIPtpiGetNumThreads();
/* not used by the code as it is, but a change may use them */
SCIP_RETCODE SCIPaddVarsToRow(SCIP* scip, SCIP_ROW* row, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPaddVarsToRowSameCoef(SCIP* scip, SCIP_ROW* row, int nvars, SCIP_VAR** vars, SCIP_Real val);
SCIP_RETCODE SCIPgetSolVals(SCIP* scip, SCIP_SOL* sol, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPsetSolVals(SCIP* scip, SCIP_SOL* sol, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_Real SCIPgetVarSol(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPgetVarSols(SCIP* scip, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_VAR* SCIPvarGetProbvar(SCIP_VAR* var);
int SCIPvarGetProbindex(SCIP_VAR* var);
int SCIPvarGetBranchPriority(SCIP_VAR* var);
SCIP_Real SCIPvarGetBranchFactor(SCIP_VAR* var);
SCIP_BRANCHDIR SCIPvarGetBranchDirection(SCIP_VAR* var);
SCIP_RETCODE SCIPchgVarBranchDirection(SCIP* scip, SCIP_VAR* var, SCIP_BRANCHDIR branchdirection);
SCIP_RETCODE SCIPchgVarBranchFactor(SCIP* scip, SCIP_VAR* var, SCIP_Real branchfactor);
SCIP_RETCODE SCIPupdateVarBranchPriority(SCIP* scip, SCIP_VAR* var, int branchpriority);
SCIP_RETCODE SCIPaddVarBranchPriority(SCIP* scip, SCIP_VAR* var, int addpriority);
SCIP_Bool SCIPvarIsNegated(SCIP_VAR* var);
SCIP_VAR* SCIPvarGetNegatedVar(SCIP_VAR* var);
SCIP_VAR* SCIPvarGetNegationVar(SCIP_VAR* var);
int SCIPvarCompare(SCIP_VAR* var1, SCIP_VAR* var2);
SCIP_RETCODE SCIPgetVarsData(SCIP* scip, SCIP_VAR*** vars, int* nvars, int* nbinvars, int* nintvars, int* nimplvars, int* ncontvars);
SCIP_RETCODE SCIPgetOrigVarsData(SCIP* scip, SCIP_VAR*** vars, int* nvars, int* nbinvars, int* nintvars, int* nimplvars, int* ncontvars);
SCIP_VAR** SCIPgetFixedVars(SCIP* scip);
int SCIPgetNFixedVars(SCIP* scip);
int SCIPsnprintf(char* t, int len, const char* s, ...);
SCIP_RETCODE SCIPcreateConsBasicSetcover(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars);
SCIP_RETCODE SCIPcreateConsBasicSetpack(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars);
SCIP_RETCODE SCIPcreateConsBasicSetpart(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars);
SCIP_RETCODE SCIPcreateConsBasicLogicor(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars);
SCIP_RETCODE SCIPcreateConsSetcover(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsSetpack(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsSetpart(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPaddCoefSetppc(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var);
SCIP_RETCODE SCIPgetRealParam(SCIP* scip, const char* name, SCIP_Real* value);
SCIP_RETCODE SCIPgetIntParam(SCIP* scip, const char* name, int* value);
SCIP_RETCODE SCIPgetBoolParam(SCIP* scip, const char* name, SCIP_Bool* value);
SCIP_RETCODE SCIPgetLongintParam(SCIP* scip, const char* name, SCIP_Longint* value);
SCIP_RETCODE SCIPgetCharParam(SCIP* scip, const char* name, char* value);
SCIP_RETCODE SCIPgetStringParam(SCIP* scip, const char* name, char** value);
SCIP_RETCODE SCIPfixParam(SCIP* scip, const char* name);
SCIP_RETCODE SCIPunfixParam(SCIP* scip, const char* name);
SCIP_Real SCIPfloor(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPceil(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPround(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPsumepsilon(SCIP* scip);
SCIP_Real SCIPdualfeastol(SCIP* scip);
SCIP_Bool SCIPisSumEQ(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisSumLT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisSumLE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisSumGT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisSumGE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisRelEQ(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisRelLT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisRelLE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisRelGT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisRelGE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisEfficacious(SCIP* scip, SCIP_Real efficacy);
SCIP_Real SCIPrelDiff(SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisCutNew(SCIP* scip, SCIP_ROW* row);
SCIP_Bool SCIPisCutApplicable(SCIP* scip, SCIP_ROW* cut);
SCIP_Real SCIPgetRowFeasibility(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetRowSolFeasibility(SCIP* scip, SCIP_ROW* row, SCIP_SOL* sol);
SCIP_Real SCIPgetRowSolActivity(SCIP* scip, SCIP_ROW* row, SCIP_SOL* sol);
SCIP_Real SCIPgetRowLPFeasibility(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetFeasibilityLinear(SCIP* scip, SCIP_CONS* cons, SCIP_SOL* sol);
SCIP_RETCODE SCIPcaptureRow(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPchgRowLhs(SCIP* scip, SCIP_ROW* row, SCIP_Real lhs);
SCIP_RETCODE SCIPchgRowRhs(SCIP* scip, SCIP_ROW* row, SCIP_Real rhs);
SCIP_RETCODE SCIPcreateRowConshdlr(SCIP* scip, SCIP_ROW** row, SCIP_CONSHDLR* conshdlr, const char* name, int len, SCIP_COL** cols, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcreateRowCons(SCIP* scip, SCIP_ROW** row, SCIP_CONS* cons, const char* name, int len, SCIP_COL** cols, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_Bool SCIPisLPConstructed(SCIP* scip);
SCIP_Bool SCIPhasCurrentNodeLP(SCIP* scip);
SCIP_Bool SCIPisLPRelax(SCIP* scip);
SCIP_RETCODE SCIPchgVarName(SCIP* scip, SCIP_VAR* var, const char* name);
SCIP_Longint SCIPgetNLPIterations(SCIP* scip);
SCIP_Longint SCIPgetNNodeLPs(SCIP* scip);
SCIP_Longint SCIPgetNNodeLPIterations(SCIP* scip);
SCIP_Longint SCIPgetNRootLPIterations(SCIP* scip);
int SCIPgetNCutsFound(SCIP* scip);
int SCIPgetNCutsFoundRound(SCIP* scip);
int SCIPgetNPoolCuts(SCIP* scip);
int SCIPgetNPricevars(SCIP* scip);
SCIP_CONS** SCIPconshdlrGetConss(SCIP_CONSHDLR* conshdlr);
int SCIPconshdlrGetNConss(SCIP_CONSHDLR* conshdlr);
int SCIPconshdlrGetNActiveConss(SCIP_CONSHDLR* conshdlr);
SCIP_Longint SCIPconshdlrGetNCutsFound(SCIP_CONSHDLR* conshdlr);
SCIP_Longint SCIPconshdlrGetNCutsApplied(SCIP_CONSHDLR* conshdlr);
SCIP_Longint SCIPconshdlrGetNSepaCalls(SCIP_CONSHDLR* conshdlr);
int SCIPconshdlrGetSepaFreq(SCIP_CONSHDLR* conshdlr);
int SCIPconshdlrGetSepaPriority(SCIP_CONSHDLR* conshdlr);
SCIP_Bool SCIPisStopped(SCIP* scip);
SCIP_Bool SCIPisSolveInterrupted(SCIP* scip);
SCIP_Bool SCIPisTransformed(SCIP* scip);
SCIP_Bool SCIPisInRestart(SCIP* scip);
SCIP_Bool SCIPpressedCtrlC(SCIP* scip);
SCIP_Bool SCIPareSolsEqual(SCIP* scip, SCIP_SOL* sol1, SCIP_SOL* sol2);
int SCIPgetSubscipDepth(SCIP* scip);
int SCIPgetFocusDepth(SCIP* scip);
int SCIPgetEffectiveRootDepth(SCIP* scip);
SCIP_NODE* SCIPgetRootNode(SCIP* scip);
SCIP_Real SCIPgetLocalLowerbound(SCIP* scip);
SCIP_Real SCIPgetLocalDualbound(SCIP* scip);
SCIP_Real SCIPgetNodeLowerbound(SCIP* scip, SCIP_NODE* node);
SCIP_Real SCIPgetNodeDualbound(SCIP* scip, SCIP_NODE* node);
SCIP_Real SCIPgetLPRootObjval(SCIP* scip);
SCIP_Real SCIPgetLPLooseObjval(SCIP* scip);
SCIP_Real SCIPgetPseudoObjval(SCIP* scip);
SCIP_Real SCIPgetTransGap(SCIP* scip);
SCIP_Real SCIPretransformObj(SCIP* scip, SCIP_Real obj);
SCIP_Real SCIPtransformObj(SCIP* scip, SCIP_Real obj);
SCIP_Longint SCIPgetSolNodenum(SCIP* scip, SCIP_SOL* sol);
SCIP_HEUR* SCIPgetSolHeur(SCIP* scip, SCIP_SOL* sol);
SCIP_HEUR* SCIPsolGetHeur(SCIP_SOL* sol);
SCIP_Longint SCIPsolGetNodenum(SCIP_SOL* sol);
int SCIPsolGetIndex(SCIP_SOL* sol);
int SCIPsolGetDepth(SCIP_SOL* sol);
const char* SCIPheurGetName(SCIP_HEUR* heur);
SCIP_RETCODE SCIPclearSol(SCIP* scip, SCIP_SOL* sol);
SCIP_RETCODE SCIPunlinkSol(SCIP* scip, SCIP_SOL* sol);
SCIP_RETCODE SCIPlinkLPSol(SCIP* scip, SCIP_SOL* sol);
SCIP_RETCODE SCIProundSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool* success);
SCIP_RETCODE SCIPcreateCurrentSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPincSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var, SCIP_Real incval);
SCIP_RETCODE SCIPgetTransformedConss(SCIP* scip, int nconss, SCIP_CONS** conss, SCIP_CONS** transconss);
SCIP_RETCODE SCIPprintOrigProblem(SCIP* scip, FILE* file, const char* extension, SCIP_Bool genericnames);
SCIP_RETCODE SCIPprintTransProblem(SCIP* scip, FILE* file, const char* extension, SCIP_Bool genericnames);
SCIP_RETCODE SCIPprintStatus(SCIP* scip, FILE* file);
SCIP_RETCODE SCIPprintVar(SCIP* scip, SCIP_VAR* var, FILE* file);
void SCIPprintError(SCIP_RETCODE retcode);
SCIP_Bool SCIPconsIsDeleted(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsEnabled(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsAdded(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsGlobal(SCIP_CONS* cons);
int SCIPconsGetPos(SCIP_CONS* cons);
SCIP_RETCODE SCIPsetConsSeparated(SCIP* scip, SCIP_CONS* cons, SCIP_Bool separate);
SCIP_RETCODE SCIPsetConsPropagated(SCIP* scip, SCIP_CONS* cons, SCIP_Bool propagate);
SCIP_RETCODE SCIPsetConsLocal(SCIP* scip, SCIP_CONS* cons, SCIP_Bool local);
SCIP_RETCODE SCIPsetConsDynamic(SCIP* scip, SCIP_CONS* cons, SCIP_Bool dynamic);
int SCIPgetNActiveConss(SCIP* scip);
int SCIPgetNObjVars(SCIP* scip);
SCIP_CONSHDLR** SCIPgetConshdlrs(SCIP* scip);
int SCIPgetNConshdlrs(SCIP* scip);
SCIP_EVENTHDLR** SCIPgetEventhdlrs(SCIP* scip);
int SCIPgetNEventhdlrs(SCIP* scip);

#ifdef __cplusplus
}
/* SCIP's memory macros, on malloc */
template <class T> static inline SCIP_RETCODE VERIF_alloc(T** p, long n, bool clear, bool again) { *p = (T*)(again ? realloc((void*)*p, sizeof(T) * (n > 0 ? n : 1)) : clear ? calloc(n > 0 ? n : 1, sizeof(T)) : malloc(sizeof(T) * (n > 0 ? n : 1))); return *p ? SCIP_OKAY : SCIP_NOMEMORY; }
template <class T, class S> static inline SCIP_RETCODE VERIF_copy(T** p, S* from, long n) { SCIP_RETCODE r = VERIF_alloc(p, n, false, false); if (r == SCIP_OKAY && n > 0) memcpy((void*)*p, (const void*)from, sizeof(T) * n); return r; }
template <class T> static inline void VERIF_release(T** p) { free((void*)*p); *p = NULL; }
#define SCIPallocBuffer(scip, ptr) VERIF_alloc(ptr, 1, false, false)
#define SCIPallocBufferArray(scip, ptr, num) VERIF_alloc(ptr, num, false, false)
#define SCIPallocClearBufferArray(scip, ptr, num) VERIF_alloc(ptr, num, true, false)
#define SCIPallocCleanBufferArray(scip, ptr, num) VERIF_alloc(ptr, num, true, false)
#define SCIPreallocBufferArray(scip, ptr, num) VERIF_alloc(ptr, num, false, true)
#define SCIPduplicateBufferArray(scip, ptr, source, num) VERIF_copy(ptr, source, num)
#define SCIPfreeBuffer(scip, ptr) VERIF_release(ptr)
#define SCIPfreeBufferNull(scip, ptr) VERIF_release(ptr)
#define SCIPfreeBufferArray(scip, ptr) VERIF_release(ptr)
#define SCIPfreeBufferArrayNull(scip, ptr) VERIF_release(ptr)
#define SCIPfreeCleanBufferArray(scip, ptr) VERIF_release(ptr)
#define SCIPallocMemory(scip, ptr) VERIF_alloc(ptr, 1, false, false)
#define SCIPallocMemoryArray(scip, ptr, num) VERIF_alloc(ptr, num, false, false)
#define SCIPallocClearMemoryArray(scip, ptr, num) VERIF_alloc(ptr, num, true, false)
#define SCIPreallocMemoryArray(scip, ptr, num) VERIF_alloc(ptr, num, false, true)
#define SCIPduplicateMemoryArray(scip, ptr, source, num) VERIF_copy(ptr, source, num)
#define SCIPfreeMemory(scip, ptr) VERIF_release(ptr)
#define SCIPfreeMemoryArray(scip, ptr) VERIF_release(ptr)
#define SCIPfreeMemoryArrayNull(scip, ptr) VERIF_release(ptr)
#define SCIPallocBlockMemory(scip, ptr) VERIF_alloc(ptr, 1, false, false)
#define SCIPallocClearBlockMemory(scip, ptr) VERIF_alloc(ptr, 1, true, false)
#define SCIPallocBlockMemoryArray(scip, ptr, num) VERIF_alloc(ptr, num, false, false)
#define SCIPallocClearBlockMemoryArray(scip, ptr, num) VERIF_alloc(ptr, num, true, false)
#define SCIPreallocBlockMemoryArray(scip, ptr, oldnum, num) VERIF_alloc(ptr, num, false, true)
#define SCIPduplicateBlockMemoryArray(scip, ptr, source, num) VERIF_copy(ptr, source, num)
#define SCIPfreeBlockMemory(scip, ptr) VERIF_release(ptr)
#define SCIPfreeBlockMemoryNull(scip, ptr) VERIF_release(ptr)
#define SCIPfreeBlockMemoryArray(scip, ptr, num) VERIF_release(ptr)
#define SCIPfreeBlockMemoryArrayNull(scip, ptr, num) VERIF_release(ptr)
extern "C" {
#endif
#define SCIP_CALL_TERMINATE(retcode, x, TERM) do { if( ((retcode) = (x)) != SCIP_OKAY ) goto TERM; } while(FALSE)
#define SCIP_REAL_MAX 1.7976931348623157e+308
#define SCIP_REAL_MIN (-1.7976931348623157e+308)
#define SCIP_DEFAULT_EPSILON 1e-09
#define SCIP_DEFAULT_FEASTOL 1e-06
#define REALABS(x) (fabs(x))
#define EPSEQ(x,y,eps) (REALABS((x)-(y)) <= (eps))
#define EPSLT(x,y,eps) ((x)-(y) < -(eps))
#define EPSLE(x,y,eps) ((x)-(y) <= (eps))
#define EPSGT(x,y,eps) ((x)-(y) > (eps))
#define EPSGE(x,y,eps) ((x)-(y) >= -(eps))
#define EPSZ(x,eps) (REALABS(x) <= (eps))
#ifdef __cplusplus
}
#endif
#endif
