// The ISO 10383 constants, by name.
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use RustQuant_iso::iso_10383 as m;

fn row(name: &str, x: &m::ISO_10383) -> Value {
    json!([name, {"mic": name, "op": x.operating_mic, "country": x.country_code, "kind": format!("{:?}", x.oprt_sgmt), "status": format!("{:?}", x.status), "city": x.city, "name": x.description}])
}

macro_rules! rows {
    ($($n:ident)*) => { vec![$(row(stringify!($n), &m::$n)),*] };
}

fn main() {
    serve(|_| json!({"rows": rows()}));
}

#[rustfmt::skip]
fn rows() -> Vec<Value> {
    rows![
        A2XX AACA AAPA AATS ABAN ABFI ABNA ABNC ABSI ABUL ABXX ACCX ACEX ACKF ACXC ACXL ADRK ADVT AFDL AFET
        AFEX AFSA AFSE AFSI AFSL AFSO AFSX AFTS AGBP AILT AIMX AIXE AIXK AKIS ALDP ALGO ALLT ALSI ALTX ALXA
        ALXB ALXL ALXP AMLG AMNL AMPX AMTS AMXO ANLP ANTS ANZL APAW APCL APEX APXL AQEA AQED AQEU AQSD AQSE
        AQSF AQSG AQSL AQSN AQST AQUA AQXA AQXD AQXE ARAX ARCD ARCH ARCO ARCX ARDA AREX ARIA ARKX ARTX ASEF
        ASEX ASMT ASPI ASPN ASTR ASXB ASXC ASXP ASXT ASXV ATAD ATDF ATFX ATHL ATLB ATLN ATSA AURB AURO AUTB
        AUTO AUTP AUTX AWBX AWEX AXSI BAAD BACE BACR BAEP BAIK BAIP BAJD BAJM BALT BAML BAMP BAMX BANA BAPA
        BAPE BAPX BARD BARK BARL BARO BART BARU BARX BASE BASI BASP BASX BATD BATE BATF BATO BATP BATS BATY
        BBIE BBIS BBLX BBOK BBSF BBSI BBSX BBVA BBVX BCDX BCEE BCFS BCMA BCMM BCRM BCSC BCSE BCSI BCSL BCXE
        BDEA BDPL BDSK BEAM BEBG BEEX BEIS BELB BELF BERA BERB BERC BETA BETP BETX BEUD BEUE BEUF BEUO BEUP
        BEUT BFEX BFPT BGCA BGCB BGCD BGCF BGCI BGCJ BGCM BGCO BGEM BGFI BGFU BGFX BGHX BGLU BGSG BGSI BGUK
        BHSF BHWA BIDS BILT BILU BINV BISI BIVA BJSE BKBF BKBR BKDM BKKT BKLF BKLN BKSK BLBB BLBF BLBS BLEQ
        BLEV BLFX BLIQ BLKX BLNK BLOX BLPX BLTD BLTX BLUE BLUX BLXA BMCL BMCM BMEA BMEX BMFA BMFM BMFX BMLB
        BMLI BMLS BMLX BMSI BMTF BMTS BNDD BNDS BNLD BNPA BNPC BNPF BNPH BNPL BNPP BNPS BNPX BNSX BNTW BNYC
        BOAL BOAT BOCF BOFS BOND BOSC BOSD BOSP BOTC BOTE BOTV BOVA BOVM BPAS BPKO BPLC BPOL BPSX BRDE BRDL
        BRDS BREA BRED BRFQ BRGA BRIX BRMF BRNX BSAB BSEX BSFX BSLB BSME BSPL BSTX BTAM BTBS BTEC BTEE BTEQ
        BTFE BTLX BTNL BTQE BTQG BTRL BTUN BULK BURG BURM BUYN BVCA BVMF BVUK BVUR BVUS BXDA BYXD BZXD C2OX
        CABK CABV CAES CALH CAND CANX CAPA CAPI CAPL CASI CAST CATS CAVD CAVE CAZE CBAE CBAL CBKA CBKC CBKD
        CBKE CBKF CBKG CBKS CBLC CBNL CBOE CBSK CBSX CBTS CCEU CCEX CCFE CCFX CCLX CCML CCMS CCMX CCO2 CCRM
        CCXE CDED CDEL CDSI CDSL CECA CECS CEDX CELP CEPL CEPU CESI CETI CETO CEUD CEUE CEUO CEUX CFAU CFBC
        CFHK CFIC CFIF CFIL CFIM CFJP CFTW CGCM CGDB CGEB CGEC CGEE CGET CGGD CGIT CGMA CGMC CGMD CGME CGMG
        CGMH CGMI CGML CGMT CGMU CGMX CGND CGQD CGQT CGTR CGXS CHEV CHIA CHIC CHID CHIE CHIJ CHIO CHIS CHIV
        CHIX CHIY CIBC CIBH CIBP CICX CILH CIMA CIMB CIMD CIME CIMV CIOI CISD CITD CITX CLAU CLCH CLHK CLJP
        CLMX CLPH CLST CLTD CLVE CMAP CMCI CMCM CMEC CMED CMEE CMES CMET CMMT CMSF CMTS CNOD CNSI COAL CODA
        COHR COMG COMM CONC CONE CORE COTC CPGX CPTX CRDL CRED CREM CRYD CRYP CRYX CSAG CSAS CSAU CSBX CSCF
        CSCL CSDA CSE2 CSEC CSEU CSFB CSGI CSHK CSIN CSJP CSLB CSLP CSMD CSOB CSOT CSSI CSSX CSTO CSVW CSZH
        CTWO CURX CXAB CXAC CXAF CXAI CXAM CXAN CXAP CXAQ CXAR CXAV CXAW CXOT CXRT DAIW DAMP DAPA DASH DASI
        DAUK DAVY DBAB DBAG DBCR DBCX DBDC DBDX DBES DBHK DBIX DBLN DBLX DBMO DBOX DBSE DBSX DBVX DCSE DCSX
        DDTX DEAL DEKA DEXE DGCX DHEL DHLX DICE DIFX DKED DKFI DKOB DKTC DKWB DNDK DNFI DNIS DNSE DOSE DOTS
        DOWE DOWG DOWM DRCT DRSP DSMD DSME DSTO DUMX DUSA DUSB DUSC DUSD DVFX DWFI DWSF DZBK EACM EBHU EBLX
        EBMX EBON EBRA EBSC EBSD EBSF EBSI EBSM EBSN EBSO EBSS EBSX EBXV ECAG ECAL ECEU ECGS ECHO ECNL ECSL
        ECXE EDBT EDDP EDGA EDGD EDGE EDGL EDGO EDGX EDRF EDXM EEAL EESE EESX EFTP EGMT EGSI EIXE ELEU ELIX
        ELNO ELSE ELUK ELXE EMBX EMCE EMCH EMDR EMIB EMID EMIR EMLD EMTF EMTS ENAX ENCL ENMS ENSL ENSX ENSY
        ENTW ENXB ENXL EOTC EPEX EPRD EPRL EQCA EQIE EQLD EQOC EQOD EQOS EQSE EQSL EQTA EQTB EQTC EQTD EQUS
        EQWB ERBX ERFQ ERIS ERST ESLO ESPD ESTO ETFP ETLX ETOR ETPA ETSC EUAX EUCC EUCH EUFN EUOB EURM EUSC
        EUSP EUWA EUWB EUWX EVOL EWRM EWSM EXAA EXBO EXCP EXDC EXEU EXGM EXLP EXMP EXOR EXOT EXPA EXPM EXSB
        EXSD EXSE EXSF EXSH EXSI EXSP EXSY EXTR EXVP EXYY FAIR FAST FBSI FCBT FCME FGEX FICO FICX FIED FINC
        FINN FINO FINR FINY FISH FISU FLTB FLTR FLWX FMTS FNCS FNDK FNDS FNEE FNFI FNFT FNFX FNIS FNIX FNLT
        FNLV FNSE FNUK FNXB FPWB FRAA FRAB FRAD FRAS FRAU FRAV FRAW FREI FREX FRRF FRTE FSEF FSHX FSME FTFM
        FTFS FTUS FUSD FXAL FXCL FXCM FXFM FXGB FXMT FXNM FXOP FXPS FXRQ FXRS FXSM FXSW G1XX G360 GBOB GBOT
        GBSI GBUL GBWB GEMX GETB GFAM GFAU GFBM GFBO GFIA GFIB GFIC GFIF GFIM GFIN GFIR GFKS GFOX GFPO GFSG
        GFSM GFSO GIPB GLBX GLLC GLMX GLOM GLPS GLPX GMBG GMEG GMEO GMES GMEX GMGD GMGE GMGL GMNI GMTF GMTS
        GOTC GOVX GPBC GREE GRIF GRIO GROW GRSE GSAL GSBE GSBX GSCI GSCO GSEF GSEI GSIB GSIL GSLO GSPL GSPX
        GSSI GSXC GSXH GSXK GSXL GSXM GSXN GSXT GTCO GTSX GTXE GTXS GXGF GXGM GXGR GXMA HAMA HAMB HAML HAMM
        HAMN HANA HANB HBFR HBPL HCER HCHC HDAT HEDE HEGX HELA HEMO HESP HGSP HKME HMOD HMTF HOTC HPCO HPCS
        HPCV HPCX HPPO HPSO HPSX HREU HRFQ HRSI HRTF HRTX HSBC HSBT HSFX HSTC HSXA HSXE HUDX HUNG HUPX IATS
        IBAL IBEQ IBER IBEX IBGH IBIS IBKR IBLX IBSI IBUL ICAH ICAP ICAS ICAT ICBX ICDX ICEL ICEN ICEO ICES
        ICEU ICHK ICKR ICOR ICOT ICPM ICRO ICSE ICSH ICSU ICSZ ICTQ ICTW ICUR ICUS ICXL ICXR IDXM IEBS IECE
        IECL IENG IEOS IEPA IEXC IEXD IEXG IFAD IFBX IFCA IFED IFEN IFEU IFFX IFLL IFLO IFLS IFLX IFSG IFSM
        IFUS IFUT IFXA IFXC IFXR IGDL IIDX IINX IKBS ILCM IMAG IMBD IMCC IMCD IMCE IMCG IMCM IMCO IMCR IMCS
        IMCT IMED IMEN IMEQ IMET IMEX IMFD IMFX IMGB IMGI IMIR IMMH IMMM IMRD IMSB IMTF IMTS INCA INCR INFT
        INGB INGE INGF INGU INGW INSE INTL INVE IOCD IOED IOFB IOFI IOFX IOGB IOGI IOIR IOMM IOTC IOTF IPNL
        IPSX IPXP IPXW ISBA ISBV ISDA ISDX ISEC ISEX ISSI ISWA ISWB ISWC ISWE ISWN ISWO ISWP ISWR ISWT ISWV
        ITGI ITGL ITSM IUOB IVZX IXSP JADX JASR JATA JBSI JBUL JEFE JEFS JEFX JESI JISI JLEQ JLEU JLQD JLSI
        JNSI JNST JPBX JPCB JPEU JPMI JPMS JPMX JPSI JSEB JSEF JSER JSES JSJX JSSI JYSI KABU KAIX KBCB KBLC
        KBLL KBLM KBLS KBLT KCCP KDPW KELR KHHU KLEU KLSH KMTS KMUX KNCM KNEM KNIG KNLI KNMX KOCN KOME KOTF
        KRME LAFD LAFL LAFX LAMP LASF LASP LATG LAVA LBBW LBCM LBCW LBUL LBWL LBWS LCHC LCUR LEBV LEDG LELE
        LESI LEUE LEUF LEVL LICA LIFI LIGA LIQF LIQH LIQU LISX LISZ LIUH LIUS LLAT LMAD LMAE LMAF LMAO LMAS
        LMAX LMEC LMNR LMNX LMTS LNEQ LNFI LOTC LOUI LOYD LPPM LPSF LQED LQFI LSSI LTAA LTSE LXJP LYNX MABX
        MACB MACX MAEL MAGM MAKX MALM MALX MANL MAQE MAQH MAQI MAQJ MAQL MAQU MAQX MARF MASG MATN MATX MAXD
        MBCP MBPL MBSI MBUL MCAD MCID MCRY MCSE MCUR MCXR MCXS MCXX MCZK MDIP MDRV MEAU MEHK MELO MEMD MEMM
        MEMX MERD MERF MERK MESI MESQ METZ MFGL MFOX MFXA MFXC MFXR MHBD MHBE MHBL MHBP MHEL MHEU MHIP MIBG
        MIBL MICE MIDC MIHI MISX MIVX MIZX MKAA MKAP MKTF MLAX MLCO MLER MLES MLEU MLEX MLIB MLIX MLRQ MLSI
        MLVE MLVX MLXB MLXN MNDK MNFI MNIS MNSE MOCX MOSE MOTX MPRL MSAL MSAX MSBI MSCO MSCX MSDM MSEL MSEU
        MSIP MSLC MSLP MSMS MSNT MSPL MSRP MSSI MSTC MSTO MSTX MSWP MSXB MSXO MTAA MTAH MTAX MTCH MTSA MTSB
        MTSC MTSD MTSF MTSG MTSM MTSO MTSP MTSS MTSW MTUS MTXA MTXC MTXM MTXS MTXX MUBE MUBL MUBM MUBP MUDX
        MUFP MUNA MUNB MUNC MUND MUSE MUSN MUTI MVCX MXLM MXNL MXOP MYTR N2EX NABA NABE NABL NABP NABU NAMX
        NAPA NASB NASD NASN NASX NATX NAVE NBFL NBLX NBOT NBXO NCEL NCME NCML NDCM NDEX NDXS NECD NEEQ NEOC
        NEOD NEOE NEON NESI NEXD NEXF NEXG NEXL NEXN NEXO NEXS NEXT NEXX NEXY NFSA NFSC NFSD NGXC NIBC NIBR
        NILX NLAX NLBX NLPX NMCE NMRA NMRJ NMSX NMTF NMTS NNCS NOCO NODX NOED NOFF NOFI NOME NOOB NOPS NORD
        NORX NOSC NOSI NOTC NOWB NOWX NPEX NPGA NPMS NSME NSPO NSSA NSXB NTRL NTUK NURD NURO NWMS NWNV NXBX
        NXEU NXFO NXJP NXSE NXUS NXVW NYFX NYMS NYMX NYPC NYSD NYSI NZFX OAPA OBKL OCEA OCSI OCTL ODDO ODOC
        ODXE OFEX OHVO OILX OLBB OLLC OMEL OMGA OMIC OMIP ONEC ONSE OOTC OPCO OPEX OPRA OSDS OSLC OSSG OTCB
        OTCE OTCI OTCM OTCN OTCQ OTCX OTPB OTPR OTXB OTXT PARK PARX PATF PAVE PBGR PBUL PCDS PDEX PDQD PDQX
        PEEL PEPH PEPM PEPQ PEPW PEPY PFTQ PFTS PFXD PHSI PIEU PINC PINI PINL PINX PIPE PIPR PIRM PJCX PKOP
        PLDX PLPD PLPO PLPS PLPX PLSX PLUS PMTS PNED POEE PORT POSE POTC POTL PPEX PRME PROS PRSE PSGM PSXD
        PTPG PULX PUMA PUMX PUND PURE PVMF PXIL QMTF QMTS QUNT QWIX R5FX RABL RABO RAJA RBCB RBCC RBCE RBCG
        RBCM RBCT RBHU RBIV RBSI RBSX RCBX RCMA RENC RESE RESF REST RFBK RFIM RICD RICX RITS RLBO RMMS RMMX
        RMTF RMTS ROCO ROFX ROSR ROTC RPDX RPWC RR4G RRSI RSEX RTSI RTSL RTSP RTSX RTXF RULE RUSX S3FM SAGE
        SANT SB1M SBAR SBEX SBIJ SBIL SBIU SBIV SBMF SBSI SCAG SCLE SCOT SCXA SCXF SCXM SCXO SCXS SEBA SEBL
        SEBS SEBX SECC SECD SECE SECF SEDC SEDR SEDX SEED SELC SEMX SEND SEOB SEPE SEWB SFCL SFOX SGA2 SGAS
        SGEX SGMA SGMT SGMU SGMV SGMW SGMX SGMY SGMZ SGOE SHAD SHAR SHAW SHSC SIAB SIBC SICS SIDX SIFX SIGA
        SIGH SIGJ SIGX SIMD SIMV SISI SISU SKBB SKSI SKYX SLHB SLKK SLXT SMBB SMBC SMBD SMBE SMBG SMBP SMEX
        SMFE SMFF SMTS SNSI SNUK SOHO SPAD SPAX SPBE SPDK SPDX SPEC SPEU SPEX SPFI SPHR SPIM SPNO SPRZ SPTR
        SPTX SPXE SQUA SSBI SSBM SSBT SSEX SSFX SSIL SSME SSOB SSTX SSWM STAL STAN STEE STFL STFU STFX STOX
        STRM STRT STSI STUA STUB STUC STUD STUE STUF STXS SUNB SUNM SUNO SUNT SVES SVEX SVXI SWAP SWBI SWEE
        SWLT SWLV SXSI SYFX SZSC T212 TBEN TBLA TBSA TBSP TCDS TCME TCML TDBL TDGF TDON TECO TEEG TEFD TEFX
        TEGB TEGI TEIR TEMB TEMC TEMF TEMG TEMI TEMM TEMR TEOF TEPF TEPG TEPI TEPM TEPR TEPX TERA TERE TERM
        TEUR TFEX TFSA TFSC TFSD TFSE TFSG TFSS TFSU TFSV TGAT TGSI THEM THRD THRE TICT TIRD TLAB TLCM TMCC
        TMCY TMEU TMEX TMID TMTS TMUK TMXS TNLA TNLB TNLK TNLL TOCP TOMD TOMF TOMG TOMX TOWR TPCD TPDA TPDE
        TPEE TPEL TPEO TPEQ TPER TPES TPEU TPFD TPFR TPIC TPID TPIE TPIM TPIO TPIR TPIS TPLF TPMF TPMG TPRE
        TPSD TPSE TPSL TPSO TPSP TPSV TPSY TQEA TQEB TQEM TQEX TRAI TRAL TRAS TRAX TRCK TRCX TRDC TRDE TRDX
        TREA TREO TREU TRFW TRFX TRNL TRPX TRQA TRQB TRQC TRQD TRQM TRQS TRQX TRSI TRU1 TRU2 TRUK TRUX TRWB
        TRXE TSAD TSAF TSBX TSCB TSCD TSED TSEF TSFF TSFG TSFI TSFX TSGB TSGI TSIG TSIR TSMB TSMC TSMG TSMI
        TSMM TSMR TSRE TSUK TUOB TWEA TWEM TWEO TWEU TWGP TWHK TWJP TWJT TWSF TWSG U360 UBCZ UBEC UBIM UBIN
        UBIS UBSA UBSB UBSC UBSD UBSE UBSF UBSG UBSI UBSL UBSP UBSS UBST UBSX UBSY UCBA UCBG UCDE UCHU UCIT
        UFEX UGEN UICE UKCA UKEX UKGD UKOR UKPX UKRE ULTX UMTS UNGB URCE USEF USOB USWB USWP UTSL VABD VAGL
        VAGM VALX VCMO VCRS VDRK VEGA VERT VFCM VFEX VFGB VFIL VFMI VFSI VFUK VFXO VIRT VIUK VKAB VLEX VMEX
        VMFX VMTS VNDM VOLA VONT VPXB VRXP VTBC VTEX VTLS VTPS VUBA VUSA VWDA VWDX WABR WBAH WBCL WBDM WBGF
        WBKP WBLC WBON WCDE WCLK WDER WEED WELN WELS WELX WETP WFLB WFSE WGAS WIND WINS WINX WIPO WMTF WOOD
        WOPO WQXL WSAG WSIL WSIN XA1X XABC XABG XABJ XABX XACE XADE XADF XADS XAEX XAFR XAFX XAIM XALB XALG
        XALS XALT XAMM XAMS XAND XANM XANT XAOM XAPA XAPI XAQS XARC XARM XASE XASM XASX XATH XATL XATS XATX
        XAUK XAZX XBAA XBAB XBAH XBAN XBAR XBAV XBBF XBBJ XBBK XBCC XBCE XBCL XBCM XBCV XBCX XBDA XBDV XBEL
        XBER XBES XBEY XBFO XBIL XBIS XBKF XBKK XBLB XBLK XBLN XBMF XBMK XBND XBNV XBOG XBOL XBOM XBOS XBOT
        XBOX XBRA XBRD XBRE XBRM XBRN XBRT XBRU XBRV XBRY XBSD XBSE XBSP XBTF XBTR XBUD XBUE XBUL XBVC XBVM
        XBVP XBVR XBXO XCAI XCAL XCAN XCAR XCAS XCAY XCBD XCBF XCBO XCBT XCCE XCCX XCDE XCEC XCEG XCET XCFE
        XCFF XCGS XCHG XCHI XCIE XCIS XCME XCNF XCNQ XCOL XCOR XCRC XCRO XCSC XCSE XCSX XCUE XCUR XCVD XCX2
        XCXD XCYO XCYS XDAR XDBC XDBV XDBX XDCE XDES XDEX XDFB XDFM XDHA XDLP XDMI XDNB XDPA XDRF XDRK XDSE
        XDSM XDSX XDTB XDUB XDUS XDWZ XEAS XEBI XEBS XECB XECC XECM XECS XEDA XEDX XEEE XEEO XEER XEHQ XEID
        XELX XEMD XEMS XEQT XEQY XERE XERT XESM XETA XETB XETC XETD XETE XETF XETI XETR XETS XETU XETV XETW
        XETX XEUB XEUC XEUE XEUI XEUM XEUP XEUR XEUS XEYE XFCI XFCM XFDA XFEX XFFE XFKA XFMN XFND XFNO XFNX
        XFOM XFRA XFTA XFTX XGAS XGAT XGCL XGCX XGDX XGEM XGFI XGHA XGLO XGME XGMX XGRM XGSE XGSX XGTG XGUA
        XHAM XHAN XHCE XHEL XHER XHFT XHIR XHKF XHKG XHNF XHNX XHON XIAB XIBE XICB XICE XICX XIDX XIEL XIEX
        XIGG XIHK XIJP XIMA XIMC XIME XIMM XINE XINS XINV XIOM XIPE XIPO XIQS XISA XISE XISL XIST XISX XJAM
        XJAS XJKT XJNB XJPX XJSE XJWY XKAC XKAR XKAZ XKBT XKCE XKCM XKEM XKFB XKFE XKGT XKHA XKHR XKIE XKIS
        XKKT XKLS XKON XKOR XKOS XKRX XKSE XKST XKUW XKYO XLAH XLAO XLAT XLBM XLCE XLCH XLDN XLDX XLFX XLGT
        XLIF XLIM XLIS XLIT XLJM XLJS XLJU XLLB XLME XLOD XLOF XLOM XLON XLQC XLSM XLTO XLUS XLUX XMAB XMAC
        XMAD XMAE XMAI XMAL XMAN XMAP XMAT XMAU XMCE XMDG XMDS XMEF XMER XMEV XMEX XMFX XMGE XMIC XMID XMIF
        XMIL XMIO XMLI XMLX XMME XMNT XMNX XMOC XMOD XMOL XMON XMOO XMOS XMOT XMPW XMRV XMSM XMSW XMTB XMTS
        XMUN XMUS XMVL XNAF XNAI XNAM XNAS XNCD XNCM XNCO XNDQ XNDU XNDX XNEC XNEE XNEP XNEW XNFI XNGM XNGO
        XNGS XNII XNIM XNKS XNLI XNLX XNMR XNMS XNOM XNOR XNQL XNSA XNSE XNST XNXC XNXD XNYC XNYE XNYF XNYL
        XNYM XNYS XNZE XOAA XOAD XOAM XOAS XOBD XOCH XODE XOFF XOME XOPV XOSA XOSC XOSD XOSE XOSJ XOSL XOSM
        XOST XOTB XOTC XOTP XPAC XPAE XPAL XPAR XPBT XPET XPHL XPHO XPHS XPHX XPIC XPIN XPLU XPMS XPOL XPOM
        XPOR XPOS XPOT XPOW XPRA XPRI XPRM XPSE XPSF XPST XPSX XPTY XPUK XPUS XPXE XQLX XQMH XQOD XQTX XQUI
        XRAS XRBM XRCB XREP XRFQ XRIO XRIS XRMO XRMS XRMZ XROS XROT XROV XROX XRPM XRSP XRTR XRUS XSAF XSAM
        XSAP XSAT XSAU XSBI XSBT XSC1 XSC2 XSC3 XSCA XSCE XSCL XSCO XSCU XSDX XSEB XSEC XSEF XSES XSFA XSFE
        XSGA XSGB XSGE XSGO XSHE XSHG XSIB XSIC XSIM XSLS XSME XSMP XSOM XSOP XSPM XSPS XSRM XSSC XSSE XSTC
        XSTE XSTF XSTM XSTO XSTP XSTU XSTV XSTX XSUR XSVA XSWA XSWB XSWM XSWO XSWX XTAA XTAD XTAE XTAF XTAI
        XTAL XTAM XTAR XTEH XTFE XTFF XTFN XTIR XTK1 XTK2 XTK3 XTKA XTKO XTKS XTKT XTLX XTND XTNX XTOE XTPE
        XTPZ XTRA XTRD XTRN XTRZ XTSE XTSX XTUC XTUN XTUP XTUR XTXD XTXE XTXM XUAX XUBS XUGA XUKR XULA XUMP
        XUNI XUSE XVAL XVAR XVES XVIA XVIE XVLA XVPA XVPB XVSE XVTX XWAR XWBO XWCE XWEE XXSC XXXX XYIE XYKT
        XZAG XZAM XZAP XZCE XZIM YKNA YLDX ZAPA ZARX ZBUL ZERO ZFXM ZKBX ZOBX ZODM
    ]
}
