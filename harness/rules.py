"""
Which products need special treatment: the conditions of every special case,
as the identifying keywords, object names and file names they apply to.
Written down independently of the code; used to know when NO special case
applies (C21) and to build products one of them applies to (C22).
"""
import re


class Cond:
    def __init__(self, ok, examples, near):
        self.ok, self.examples, self.near = ok, examples, near


def near_misses(v):
    """values that look like v but neither equal nor contain it"""
    out = [v[:-1], v[1:], v.lower() if v.lower() != v else v.upper(),
           v[:len(v) // 2] + "~" + v[len(v) // 2:], v[::-1]]
    return [o for o in out if v not in o]


def Eq(*vals):
    near = [n for v in vals for n in near_misses(v)]
    near += [v + "X" for v in vals] + ["X" + v for v in vals]
    return Cond(lambda s: s in vals, list(vals), near)


def Has(*subs):
    near = [n for v in subs for n in near_misses(v)]
    return Cond(lambda s: all(x in s for x in subs),
                ["AB" + " ".join(subs) + "YZ", "".join(subs)], near)


def AnyOf(*subs):
    near = [n for v in subs for n in near_misses(v)]
    return Cond(lambda s: any(x in s for x in subs),
                ["AB" + x + "YZ" for x in subs] + list(subs), near)


def Starts(x):
    return Cond(lambda s: s.startswith(x), [x, x + "-AB"],
                ["X" + x, "A-" + x + "-B", x[:-1], x[:-1] + "~"])


def Ends(x):
    return Cond(lambda s: s.endswith(x), ["A" + x], [x + "A", x[:-1]])


def Re(rx, examples, near):
    c = re.compile(rx)
    # the expression says how a value begins
    near = near + [pre + e for e in examples for pre in ("XX-", "DERIVED-")]
    return Cond(lambda s: bool(c.match(s)), examples, near)


def Not(c, examples):
    return Cond(lambda s: not c.ok(s), examples, c.examples)


ANY = None
MSSS = Eq("MAHLI", "MAST_RIGHT", "MAST_LEFT", "MARDI")
HOST, INST, DSID, PID, PTYPE, INAME, SC, FN, NOTE = (
    "INSTRUMENT_HOST_NAME", "INSTRUMENT_ID", "DATA_SET_ID", "PRODUCT_ID",
    "PRODUCT_TYPE", "INSTRUMENT_NAME", "SPACECRAFT_NAME", "FILE_NAME", "NOTE")
ISS = Re(r"CO-(CAL-ISS|[S/EVJ-]+ISSNA/ISSWA-2)",
         ["CO-CAL-ISS-2-V1.0", "CO-S-ISSNA/ISSWA-2-EDR-V1.0",
          "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0"],
         ["CO-X-ISSNA/ISSWA-2-EDR-V1.0", "CO-CAL-ISX-2-V1.0",
          "C0-CAL-ISS-2-V1.0", "CO-S-ISSNA-2-EDR-V1.0",
          "XX-CO-CAL-ISS-2-V1.0", "CO-S-ISSNA/ISSWA-5-V1.0"])

RULES = []


def rule(name, obj=ANY, fn=ANY, needs=None, **conds):
    """
    a special case about objects whose names satisfy obj in files whose names
    satisfy fn, in products whose identifying keywords satisfy conds, if the
    object's definition includes needs (a statement, or a statement of a
    CONTAINER in it)
    """
    RULES.append((name, conds, obj, fn, needs))


rule("chemin", INSTRUMENT_ID=Eq("CHEMIN"))
rule("clem-bsr", Re("(HEADER|DATA)_TABLE", ["HEADER_TABLE", "DATA_TABLE"],
                    ["TABLE", "XDATA_TABLE"]),
     DATA_SET_ID=Eq("CLEM1-L-RSS-5-BSR-V1.0"))
rule("themis", INSTRUMENT_ID=Eq("THEMIS"))
DISR = AnyOf("STRIP", "VISIBL", "IMAGE", "IR_", "TIME", "SUN", "SOLAR",
             "DARK", "VIS_EX")
rule("disr", INSTRUMENT_NAME=Eq("DESCENT IMAGER SPECTRAL RADIOMETER"),
     PRODUCT_TYPE=Eq("RDR"))
rule("huygens", INSTRUMENT_HOST_NAME=Eq("HUYGENS PROBE"), FILE_NAME=DISR)
rule("hasi", INSTRUMENT_HOST_NAME=Eq("HUYGENS PROBE"), FILE_NAME=Has("HASI"))
rule("aero", fn=Has("HUY_DTWG_ENTRY_AERO"),
     INSTRUMENT_HOST_NAME=Eq("HUYGENS PROBE"))
rule("coiss-1006", DATA_SET_ID=Eq("CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0"))
rule("crater", Eq("TABLE_1"), INSTRUMENT_ID=Eq("CRAT"),
     PRODUCT_TYPE=Eq("EDR"))
rule("phxao", AnyOf("TABLE", "HEADER"),
     DATA_SET_ID=Eq("PHX-M-SSI-5-ATMOS-OPACITY-V1.0"))
rule("wcl-rdr", Has("TABLE"), DATA_SET_ID=Eq("PHX-M-MECA-4-NIRDR-V1.0"),
     PRODUCT_TYPE=Eq("MECA_WCL_CP", "MECA_WCL_CV"))
rule("rems-report", Eq("REMS_REPORT_TABLE"),
     INSTRUMENT_HOST_NAME=Eq("MARS SCIENCE LABORATORY"),
     INSTRUMENT_ID=Eq("REMS"), PRODUCT_ID=AnyOf("HSDEF__", "HSREG__"))
rule("msss-edr", INSTRUMENT_HOST_NAME=Eq("MARS SCIENCE LABORATORY"),
     INSTRUMENT_ID=MSSS, DATA_SET_ID=Has("EDR"))
# table readers
TABULAR = AnyOf("TABLE", "SPREADSHEET", "SERIES", "SPECTRUM", "HISTOGRAM",
                "CONTAINER", "FILE")
rule("mimi", TABULAR, DATA_SET_ID=Eq(
    "CO-S-MIMI-4-CHEMS-CALIB-V1.0", "CO-S-MIMI-4-LEMMS-CALIB-V1.0",
    "CO-S-MIMI-4-INCA-CALIB-V1.0", "CO-E/J/S/SW-MIMI-2-LEMMS-UNCALIB-V1.0",
    "CO-SSA-RADAR-3-ABDR-SUMMARY-V1.0"))
rule("mimi-ancillary", TABULAR, INSTRUMENT_HOST_NAME=Eq("CASSINI ORBITER"),
     PRODUCT_TYPE=Eq("ANCILLARY"), DATA_SET_ID=Has("CO-S-MIMI-4-"))
rule("sam-qms", Has("TABLE"), DATA_SET_ID=Has("MSL-M-SAM-"),
     PRODUCT_ID=Has("QMS"))
rule("places", Eq("SPREADSHEET"),
     DATA_SET_ID=Eq("MSL-M-ROVER-6-RDR-PLACES-V1.0"))
rule("rpc-mip", Has("SPECTRUM_TABLE"), INSTRUMENT_NAME=Eq(
    "ROSETTA PLASMA CONSORTIUM - MUTUAL IMPEDANCE PROBE"))
rule("mgn-geom", Eq("TABLE"), SPACECRAFT_NAME=Eq("MAGELLAN"),
     NOTE=Starts("Geometry"))
rule("nims-sl9", Eq("TABLE"),
     DATA_SET_ID=Eq("GO-J-NIMS-4-ADR-SL9IMPACT-V1.0"),
     PRODUCT_ID=AnyOf("CAL_DATA.TAB", "G_DATA.TAB", "R_DATA.TAB"))
rule("mgn-occ", Eq("TABLE"), DATA_SET_ID=Starts("MGN-V-RSS-5-OCC-PROF"))
rule("dlre", Eq("TABLE"), INSTRUMENT_ID=Eq("DLRE"),
     PRODUCT_TYPE=Eq("GCP", "PCP", "PRP"))
rule("pws-density", Eq("SPREADSHEET"),
     DATA_SET_ID=Eq("GO-J-PWS-5-DDR-PLASMA-DENSITY-FULL-V1.0"))
rule("grs-elements", Eq("TABLE"), DATA_SET_ID=Eq("ODY-M-GRS-5-ELEMENTS-V1.0"))
rule("uly-gas", Eq("TABLE"), needs=("^STRUCTURE", "GASDATA.FMT"), DATA_SET_ID=Eq("ULY-J-GAS-5-SKY-MAPS-V1.0"))
rule("mcs-ddr", Eq("TABLE"), DATA_SET_ID=Has("MRO-M-MCS-5-DDR"))
rule("mcs-ddr-old", DATA_SET_ID=Has("MRO-M-MCS-5-DDR", "V1.0"))
rule("crism-obs", Eq("TABLE"), INSTRUMENT_ID=Eq("CRISM"),
     PRODUCT_TYPE=Eq("ANCILLARY"), PRODUCT_ID=Has("OBS"))
rule("irfcurv", Eq("TABLE"), DATA_SET_ID=Eq("IHW-C-IRFCURV-3-EDR-HALLEY-V2.0"))
rule("ihw-newlines", Eq("TABLE"), DATA_SET_ID=Eq(
    "IHW-C-PPFLX-3-RDR-HALLEY-V1.0", "IHW-C-PPOL-3-RDR-HALLEY-V1.0",
    "IHW-C-PPSTOKE-3-RDR-HALLEY-V1.0", "IHW-C-PPMAG-3-RDR-HALLEY-V1.0",
    "IHW-C-MSNRDR-3-RDR-HALLEY-ETA-AQUAR-V1.0",
    "IHW-C-MSNRDR-3-RDR-HALLEY-ORIONID-V1.0",
    "IHW-C-MSNVIS-3-RDR-HALLEY-ETA-AQUAR-V1.0",
    "IHW-C-MSNVIS-3-RDR-HALLEY-ORIONID-V1.0",
    "IHW-C-IRFTAB-3-RDR-HALLEY-V1.0", "IHW-C-IRPOL-3-RDR-HALLEY-V1.0",
    "IHW-C-IRPHOT-3-RDR-HALLEY-V1.0"))
rule("lecp-j", Eq("TABLE"), DATA_SET_ID=Eq(
    "VG1-J-LECP-4-SUMM-SECTOR-15MIN-V1.1"))
rule("lecp-u", Eq("TABLE"), needs=("INTERCHANGE_FORMAT", "ASCII"), DATA_SET_ID=Eq(
    "VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"))
rule("lecp-s", Eq("SPREADSHEET"), DATA_SET_ID=Eq(
    "VG1-S-LECP-3-RDR-STEP-6MIN-V1.0"))
rule("vl-seis", Eq("TABLE", "SPREADSHEET"),
     DATA_SET_ID=Eq("VL2-M-SEIS-5-RDR-V1.0"))
rule("aspera-ima", Eq("SPREADSHEET"), DATA_SET_ID=Has(
    "MEX-M-ASPERA3-2-EDR-IMA"))
rule("mer-uhfd", Eq("SPREADSHEET"), PRODUCT_TYPE=Eq("UHFD"),
     DATA_SET_ID=Re(r"MER[12]-M-RSS-1-EDR-V1.0",
                    ["MER1-M-RSS-1-EDR-V1.0", "MER2-M-RSS-1-EDR-V1.0"],
                    ["MER3-M-RSS-1-EDR-V1.0", "MER1-M-RSS-2-EDR-V1.0"]))
rule("afm", Has("TABLE"), DATA_SET_ID=Eq("PHX-M-MECA-4-NIRDR-V1.0"),
     INSTRUMENT_ID=Eq("MECA_AFM"))
rule("mrs-odf", Has("TABLE"), INSTRUMENT_HOST_NAME=Eq("MARS EXPRESS"),
     INSTRUMENT_ID=Eq("MRS"), PRODUCT_ID=Has("ODF", "L1B"))
rule("minirf-hk", Eq("SPREADSHEET"), PRODUCT_ID=Has("HK_"),
     DATA_SET_ID=Eq("LRO-L-MRFLRO-1-PDR-V1.0"))
rule("rems-sp", Has("TABLE"),
     INSTRUMENT_HOST_NAME=Eq("MARS SCIENCE LABORATORY"),
     INSTRUMENT_ID=Eq("REMS"), PRODUCT_ID=Has("SP_____"))
rule("rems-rdr", Eq("REMS_SCIENCE_TABLE"),
     INSTRUMENT_HOST_NAME=Eq("MARS SCIENCE LABORATORY"),
     INSTRUMENT_ID=Eq("REMS"), DATA_SET_ID=Has("RDR"))
rule("ice-traj", Eq("TABLE"), Has("TRAJ_ICE"),
     DATA_SET_ID=Has("ICE-C-", "-3-RDR-"))
rule("wea", Eq("WEAREC_TABLE"),
     INSTRUMENT_HOST_NAME=Eq("LUNAR RECONNAISSANCE ORBITER"),
     INSTRUMENT_NAME=Eq("RADIO SCIENCE SUBSYSTEM"))
rule("wea-position", Eq("WEAREC_TABLE"),
     DATA_SET_ID=Eq("LRO-L-RSS-1-TRACKING-V1.0"))
rule("lp-outages", Eq("TABLE"),
     INSTRUMENT_HOST_NAME=Eq("LUNAR PROSPECTOR"), PRODUCT_ID=Eq("OUTAGES"))
rule("grs-ekernel", fn=Cond(lambda s: ".txt" in s.lower(), [], []),
     DATA_SET_ID=Eq("ODY-M-GRS-2-EDR-V1.0"), PRODUCT_TYPE=Eq("E_KERNEL"))
rule("vra-udr", INSTRUMENT_HOST_NAME=Eq("VENUS EXPRESS"),
     INSTRUMENT_ID=Eq("VRA"), PRODUCT_TYPE=Eq("UDR"))
rule("spede", INSTRUMENT_ID=Eq("SPEDE"), FILE_NAME=Has("PD_40_", ".TAB"))
# structures
rule("odf3b", Eq("ODF3B_TABLE"),
     INSTRUMENT_HOST_NAME=Eq("MARS GLOBAL SURVEYOR"),
     INSTRUMENT_ID=Eq("RSS"), PRODUCT_TYPE=Eq("ODF"))
rule("mgs-ecs", INSTRUMENT_HOST_NAME=Eq("MARS GLOBAL SURVEYOR"),
     INSTRUMENT_NAME=Eq("RADIO SCIENCE SUBSYSTEM"), PRODUCT_TYPE=Eq("ECS"))
rule("co-rpws", Eq("TIME_SERIES"),
     INSTRUMENT_HOST_NAME=Eq("CASSINI ORBITER"), INSTRUMENT_ID=Eq("RPWS"))
rule("gp", Eq("TABLE"), DATA_SET_ID=Re(
    r"GP-J-(NMS|ASI)-3-ENTRY-V1.0",
    ["GP-J-NMS-3-ENTRY-V1.0", "GP-J-ASI-3-ENTRY-V1.0"],
    ["GP-J-NEP-3-ENTRY-V1.0", "GP-J-ASI-4-ENTRY-V1.0"]))
rule("epd-pad", Eq("TIME_SERIES"), DATA_SET_ID=Eq("GO-E-EPD-2-SAMP-PAD-V1.0"),
     PRODUCT_ID=Eq("E1PAD_7.TAB"))
rule("ducma", Eq("TABLE"), DATA_SET_ID=Has(
    "VEGA", "-C-DUCMA-3-RDR-HALLEY-V1.0"))
rule("pia", Eq("ARRAY"), DATA_SET_ID=Eq("GIO-C-PIA-3-RDR-HALLEY-V1.0"))
rule("puma", Eq("ARRAY"), DATA_SET_ID=Re(
    r"VEGA.-C-PUMA.*", ["VEGA1-C-PUMA-X", "VEGA2-C-PUMA"],
    ["VEGA-C-PUMA", "XVEGA1-C-PUMA", "VEGA1-D-PUMA"]))
rule("mcs-edr", Eq("TABLE"), DATA_SET_ID=Re(
    r"MRO-M-MCS-(4-RDR|2-EDR)-V1.0",
    ["MRO-M-MCS-4-RDR-V1.0", "MRO-M-MCS-2-EDR-V1.0"],
    ["MRO-M-MCS-2-RDR-V1.0", "MRO-M-MCS-4-EDR-V1.0", "MRO-M-MCS-2-EDR-V2"]))
rule("pls-avg", Eq("TABLE"), DATA_SET_ID=Eq("VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"))
rule("ihw-spec", Eq("SPECTRUM"), DATA_SET_ID=Has("IHW-C-SPEC-"))
rule("em6", Eq("TBL_TABLE"), needs=("^STRUCTURE", "TBL_0_STATE_DATA.FMT"),
     DATA_SET_ID=Eq("PHX-M-MECA-2-NIEDR-V1.0"))
rule("led", Eq("TIME_SERIES"), needs=("^STRUCTURE", "TEGA_LED.FMT"),
     DATA_SET_ID=Eq("PHX-M-TEGA-2-LEDEDR-V1.0"))
rule("scrdr", Eq("TIME_SERIES"), needs=("^STRUCTURE", "TEGA_SCRDR.FMT"),
     DATA_SET_ID=Eq("PHX-M-TEGA-4-SCRDR-V1.0"))
rule("swm", Eq("TABLE"), DATA_SET_ID=Eq("MEX-SUN-ASPERA3-4-SWM-V1.0"))
rule("midas-sps", Eq("TIME_SERIES"), DATA_SET_ID=Has("-MIDAS-3-"),
     PRODUCT_ID=Has("SPS"))
rule("midas-fsc", Eq("FREQUENCY_SERIES"), DATA_SET_ID=Has("-MIDAS-3-"),
     PRODUCT_ID=Has("FSC"))
rule("consert", Cond(lambda s: "TABLE" in s and s.startswith(("I_", "Q_")),
                     ["I_TABLE", "Q_TABLE"], ["XI_TABLE", "IQ_TABLE"]),
     DATA_SET_NAME=Has("ROSETTA", "CONSERT"))
rule("go-ssi", SPACECRAFT_NAME=Eq("GALILEO ORBITER"),
     INSTRUMENT_NAME=Eq("SOLID_STATE_IMAGING", "SOLID STATE IMAGING SYSTEM"))
# positions
rule("marsis", INSTRUMENT_ID=Eq("MARSIS"), DATA_SET_NAME=Has(" TEC "))
rule("rpws-ancillary", Eq("RPWS_TIME_ORDERED_TABLE"),
     DATA_SET_ID=Has("CO-V/E/J/S/SS-RPWS-"), PRODUCT_TYPE=Eq("ANCILLARY"))
rule("hartley", Has("TABLE"),
     DATA_SET_ID=Eq("DIF-C-HRIV/MRI-5-HARTLEY2-SHAPE-V1.0"),
     PRODUCT_ID=Eq("HARTLEY2-CARTESIAN-PLATE-MODEL"))
rule("mrs-atm", Eq("ATM_TABLE"), DATA_SET_ID=Has("MEX-M-MRS-5-OCC"))
rule("mrs-icl", Eq("DOPPLER_TABLE"), INSTRUMENT_HOST_NAME=Eq("MARS EXPRESS"),
     INSTRUMENT_ID=Eq("MRS"), PRODUCT_ID=Has("ICL", "L1B"))
rule("mrs-l02", Eq("RANGING_TABLE"), INSTRUMENT_HOST_NAME=Eq("MARS EXPRESS"),
     INSTRUMENT_ID=Eq("MRS"), PRODUCT_ID=Has("ODF", "L02"))
rule("ebrocc", Eq("SERIES"), DATA_SET_ID=Eq(
    "ESO1M-SR-APPH-4-OCC-V1.0", "ESO22M-SR-APPH-4-OCC-V1.0",
    "IRTF-SR-URAC-4-OCC-V1.0", "PAL200-SR-CIRC-4-OCC-V1.0",
    "MCD27M-SR-IIRAR-4-OCC-V1.0"), PRODUCT_ID=Has("GEOM"))
rule("crism-mrdr", Eq("TABLE"), PRODUCT_ID=Has("MRRWV"),
     DATA_SET_ID=Eq("MRO-M-CRISM-5-RDR-MULTISPECTRAL-V1.0"))
rule("msx", Eq("ENVI_HEADER"), DATA_SET_ID=Eq("MSX-L-SPIRIT3-2/4-V1.0"))
# sample types
rule("jiram", DATA_SET_ID=Eq("JNO-J-JIRAM-3-RDR-V1.0"),
     PRODUCT_TYPE=Eq("RDR"))
rule("lroc", INSTRUMENT_ID=Eq("LROC"), PRODUCT_TYPE=Eq("EDR"))
rule("gvanf", DATA_SET_ID=Eq("MGN-V-RDRS-5-GVDR-V1.0"),
     PRODUCT_ID=Has("GVANF"))
rule("crater-bits", DATA_SET_ID=Eq("LRO-L-CRAT-2-EDR-RAWDATA-V1.0"))
rule("nims-edr", SPACECRAFT_NAME=Eq("GALILEO_ORBITER"),
     DATA_SET_ID=Has("-NIMS-2-EDR-V1.0"))
rule("epac-bin", DATA_SET_ID=Eq("ULY-J-EPAC-4-SUMM-PHA-24HR-V1.0"),
     PRODUCT_ID=Ends("BIN"))
rule("iss", DATA_SET_ID=ISS)
rule("bits", INSTRUMENT_NAME=Eq(
    "ALPHA PARTICLE X-RAY SPECTROMETER",
    "JOVIAN AURORAL PLASMA DISTRIBUTIONS EXPERIMENT",
    "CHEMISTRY AND MINERALOGY INSTRUMENT",
    "MARS ADVANCED RADAR FOR SUBSURFACE AND IONOSPHERE SOUNDING"))
rule("jiram-bits", INSTRUMENT_NAME=Eq("JOVIAN INFRARED AURORAL MAPPER"))
# blocks
rule("xdr", Eq("XDR_DOCUMENT"))
rule("chmn", Eq("CHMN_HSK_HEADER_TABLE"))
rule("waves-burst", Eq("FREQ_OFFSET_TABLE", "DATA_TABLE"),
     DATA_SET_ID=Cond(lambda s: s.startswith("JNO-E/J/SS")
                      and "BSTFULL" in s, ["JNO-E/J/SS-WAV-3-BSTFULL-V1.0"],
                      ["JNO-E/J/SX-WAV-3-BSTFULL-V1.0",
                       "JNO-E/J/SS-WAV-3-BSTFUL-V1.0",
                       "XJNO-E/J/SS-WAV-3-BSTFULL-V1.0"]))
rule("lamp-histogram", Has("IMAGE", "HISTOGRAM"), INSTRUMENT_ID=Eq("LAMP"),
     PRODUCT_TYPE=Eq("RDR"))
rule("minirf-mosaic", Eq("IMAGE"), PRODUCT_ID=Has("GLOBAL_S4_32PPD"),
     DATA_SET_ID=Eq("LRO-L-MRFLRO-5-GLOBAL-MOSAIC-V1.0"))
rule("orpa", Eq("TABLE"), PRODUCT_ID=Has("ORPA_LOW_RES"),
     DATA_SET_ID=Eq("PVO-V-ORPA-5-ELE/ION/PHOTO/UADS-V1.0"))
rule("oims", Eq("TABLE"), DATA_SET_ID=Eq("PVO-V-OIMS-4-IONDENSITY-12S-V1.0"))
rule("epd-summ", Eq("TIME_SERIES"), DATA_SET_ID=Has("GO-E-EPD-4-SUMM-"),
     PRODUCT_ID=Has("E1_"))
rule("pws-summ", Eq("TIME_SERIES", "TABLE"),
     INSTRUMENT_NAME=Eq("PLASMA WAVE RECEIVER"), DATA_SET_ID=Has("SUMM"))
rule("epac", Eq("TABLE"), DATA_SET_ID=Has("ULY-J-EPAC-4-SUMM"))
rule("vg-mag", Eq("TABLE"), DATA_SET_ID=Has("VG2-N-MAG-4-RDR-HGCOORDS"),
     STANDARD_DATA_PRODUCT_ID=Eq("ASCII DATA"))
rule("pls-fine", Eq("TABLE"), DATA_SET_ID=Eq("VG2-SS-PLS-3-RDR-FINE-RES-V1.0"))
rule("pls-ionbr", Eq("TIME_SERIES"), PRODUCT_ID=Eq("SUMRY.DAT"),
     DATA_SET_ID=Eq("VG2-U-PLS-5-SUMM-IONBR-48SEC-V1.0"))
rule("iris", Cond(lambda s: s == "SPECTRAL_SERIES" or "SPECTRUM" in s,
                  ["SPECTRAL_SERIES", "SPECTRUM_1"], ["SERIES"]),
     DATA_SET_ID=Eq("M9-M-IRIS-3-RDR-V1.0"))
rule("pra", Eq("TABLE"), DATA_SET_ID=Has(
    "VG2-", "-PRA-3-RDR-LOWBAND-6SEC-V1.0"))
rule("wcl-edr", Eq("WCHEM_TABLE"), DATA_SET_ID=Eq("PHX-M-MECA-2-NIEDR-V1.0"),
     PRODUCT_TYPE=Re(r"MECA-EM1[012]", ["MECA-EM10", "MECA-EM12"],
                     ["MECA-EM13", "MECA-EM1", "XMECA-EM10"]))
rule("pfs", Eq("TABLE"), DATA_SET_ID=Has("MEX-M-PFS-2-EDR-"),
     PRODUCT_ID=AnyOf("RAW", "HK"))
rule("wff-atm", Eq("IMAGE"), DATA_SET_ID=Eq("WFF-E-ATM-1/5-V1.0"))
rule("pedr", Has("TABLE"), DATA_SET_ID=Eq("MGS-M-MOLA-3-PEDR-L1A-V1.0"))
rule("iue", Eq("QUALITY_IMAGE"), DATA_SET_ID=Eq("IUE-C-SWP-3-EDR-IUECDB-V1.0"))
rule("vra-rmp", INSTRUMENT_HOST_NAME=Eq("VENUS EXPRESS"),
     INSTRUMENT_ID=Eq("VRA"), PRODUCT_ID=Has("1B_RMP_"))
rule("kag-grs", Eq("TABLE"), DATA_SET_ID=Eq("SLN-L-GRS-5-NUCLIDE-MAP-V2.0"))
rule("kag-sp", Eq("ANCILLARY_AND_SUPPLEMENT_DATA"),
     DATA_SET_ID=Has("SLN-L-SP", "LEVEL2B"))
rule("kag-grid", Eq("TABLE"), DATA_SET_ID=Has("SLN-L-LMAG-5-MA-GRID"))
rule("kag-sigma", Eq("TABLE"),
     DATA_SET_ID=Eq("SLN-L-LMAG-5-1D-SIGMA-ECS-V1.0"))
rule("kag-magts", Eq("TABLE"), DATA_SET_ID=Eq("SLN-L-LMAG-3-MAG-TS-V1.0"))
rule("kag-rise", Eq("TABLE"), DATA_SET_ID=Has("SLN-L-RISE-5-TRAJ-"))
# unsupported objects
rule("apxs-ect", Has("ERROR_CONTROL_TABLE"), INSTRUMENT_ID=Eq("APXS"))
rule("mag-edr", Eq("TABLE"),
     INSTRUMENT_NAME=Eq("TRIAXIAL FLUXGATE MAGNETOMETER"),
     DATA_SET_ID=Has("-EDR-"))
rule("ccam", Eq("IMAGE_REPLY_TABLE"),
     INSTRUMENT_NAME=Eq("CHEMISTRY CAMERA REMOTE MICRO-IMAGER"))
rule("themis-geo", Eq("HEADER", "HISTORY"), DATA_SET_ID=Starts("ODY-M-THM-5"))
rule("mgn-img", Eq("TABLE"), Cond(lambda s: s.endswith((".img", "ibg")),
                                  [], []),
     SPACECRAFT_NAME=Eq("MAGELLAN"))
rule("ssi-cubes", Eq("HEADER"), PRODUCT_ID=Has("QUB"),
     DATA_SET_ID=Has("GO-A-SSI-3-", "-CALIMAGES-V1.0"))
rule("sam-file", Has("FILE"), DATA_SET_ID=Has("MSL-M-SAM-"))
rule("nims-qube", Eq("SAMPLE_SPECTRUM_QUBE"), INSTRUMENT_ID=Eq("NIMS"),
     SPACECRAFT_NAME=Eq("GALILEO_ORBITER"))
rule("buglab", Eq("HEADER"),
     DATA_SET_ID=Eq("BUGLAB-L-BUG-4-APOLLO-SAMPLES-V1.0"))
rule("apxs-header", Eq("HEADER"), DATA_SET_ID=Eq("MSL-M-APXS-4/5-RDR-V1.0"))
rule("vra-tnf", INSTRUMENT_HOST_NAME=Eq("VENUS EXPRESS"),
     INSTRUMENT_ID=Eq("VRA"), PRODUCT_ID=Has("1A_TNF"))
rule("virtis-history", Eq("HISTORY"),
     INSTRUMENT_HOST_NAME=Eq("VENUS EXPRESS"), INSTRUMENT_ID=Eq("VIRTIS"))
rule("kag-pace", Eq("TIME_SERIES"), DATA_SET_ID=Eq("SLN-L-PACE-3-PBF1-V3.0"))
rule("kag-spx", DATA_SET_ID=Has("SLN-L-SP"))
rule("kag-qa", Eq("QA_FILENAME"), DATA_SET_ID=Eq("SLN-L-TC-4-DEM-ORTHO-V1.0"))
rule("kag-eng", Eq("TABLE"), DATA_SET_ID=Eq("SLN-L-GRS-3-ENG-SPECTRUM-V1.0"))
rule("ce3-cal", Eq("CAL_TARGET_DATA"), Has("CE3_BMYK_VNIS-CC_SCI_"))
rule("ce1-prefix", Has("IMAGE_PREFIX"), SPACECRAFT_NAME=Eq("CE1"))
# files
rule("cda", Eq("TABLE"), DATA_SET_ID=Starts("CO-D-CDA"))
rule("nh", Eq("SPREADSHEET"), DATA_SET_ID=Eq(
    "NH-P-PEPSSI-4-PLASMA-V1.0", "NH-X-SWAP-5-DERIVED-SOLARWIND-V1.0",
    "NH-P/PSA-LORRI/ALICE/REX-5-ATMOS-V1.0"))
rule("pps", Eq("SERIES"), DATA_SET_ID=Eq("VG2-SR/UR/NR-PPS-2/4-OCC-V1.0"),
     PRODUCT_TYPE=Eq("JITTER"))
rule("vims", INSTRUMENT_HOST_NAME=Eq("CASSINI_ORBITER"))
# objects in FITS files
rule("dawn", Eq("HISTORY"), INSTRUMENT_HOST_NAME=Eq("DAWN"),
     DATA_SET_ID=Has("FC2"))
rule("rpx", Has("IMAGE"), DATA_SET_ID=Starts("HST-S-WFPC2-3-RPX"))
rule("hriv", Starts("EXT_MASK"), INSTRUMENT_ID=Eq("HRIV"),
     PRODUCT_TYPE=Eq("RADIANCE_DECONVOLVED"))
rule("mdis", DATA_SET_ID=Starts("MSGR-H-MDIS-6-CAL"))
rule("mssso", DATA_SET_ID=Eq("MSSSO-J-CASPIR-3-RDR-SL9-STDS-V1.0"))
rule("vmc", DATA_SET_ID=Has("MEX-M-VMC-3-RDR"))
rule("lamp-edr", Has("TABLE"), DATA_SET_ID=Eq("LRO-L-LAMP-2-EDR-V1.0"))
rule("lamp-rdr", DATA_SET_ID=Eq("LRO-L-LAMP-3-RDR-V1.0"))
rule("uvs-rdr", PRODUCT_TYPE=Eq("RDR"), DATA_SET_ID=Has("JNO-J-UVS-3-RDR-"))
rule("uvs-edr", PRODUCT_TYPE=Eq("EDR"), DATA_SET_ID=Has("JNO-J-UVS-2-EDR-"))
# object lists, compressed images
rule("ce3-vnis", SPACECRAFT_NAME=Eq("Chang'E-3 Rover"),
     PRODUCT_ID=Cond(lambda s: ".2A" in s and any(
         x in s for x in ("CE3_BMYK_VNIS-CC_SCI_N",
                          "CE3_BMYK_VNIS-SC_SCI_N_",
                          "CE3_BMYK_VNIS-SD_SCI_N_")),
         ["CE3_BMYK_VNIS-SD_SCI_N_X.2A"],
         ["CE3_BMYK_VNIS-SD_SCI_N_X.2B", "CE3_BMYK_VNIS-SD_SCI_P_X.2A"]))
rule("moc", SPACECRAFT_NAME=Eq("MARS_GLOBAL_SURVEYOR"),
     INSTRUMENT_ID=Eq("MOC-NA", "MOC-WA"), FILE_NAME=Has("IMQ"))
rule("crism-null", Has("IMAGE"), INSTRUMENT_ID=Eq("CRISM"))


def has(block, statement):
    """is a (key, value) statement in a block or a container in it?"""
    if block is None:
        return False
    for it in block.items:
        if isinstance(it, tuple) and it[0] == statement[0] and \
                str(it[1]).strip('"') == statement[1]:
            return True
        if hasattr(it, "items") and hasattr(it, "kind") and has(
                it, statement):
            return True
    return False


def applies(r, ids, objects, files):
    """
    does rule r apply to some object of a product?
    ids: {keyword: text}, objects: [(name, definition or None)]
    """
    name, conds, obj, fn, needs = r
    return (
        all(c.ok(ids.get(k, "")) for k, c in conds.items())
        and any((obj is None or obj.ok(n))
                and (needs is None or has(b, needs)) for n, b in objects)
        and (fn is None or any(fn.ok(f) for f in files))
    )


def applicable(ids, objects, files):
    return [r[0] for r in RULES if applies(r, ids, objects, files)]
