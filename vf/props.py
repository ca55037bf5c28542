"""Which machinery decides which property."""
from vf.core import Design, Gen, Trace

CG = [Design("CggiUnits", thorough_cfg="CggiUnits_deep.cfg")]
BOOT = [Design("CggiDesign", thorough_cfg="CggiDesign_deep.cfg"),
        Design("CggiDesign", cfg="CggiDesign_bmmp.cfg", thorough_cfg="CggiDesign_bmmp_deep.cfg")]


def cggi(mode, shards, designs, extra=()):
  return dict(designs=designs,
              traces=[Trace("cggi", "CggiTrace", shards=shards, thorough_shards=8, args=["--mode", mode])] + list(extra))


XLA8 = "--xla_force_host_platform_device_count=8 --xla_cpu_multi_thread_eigen=false"
BOOLD = [Design("BoolDesign", thorough_cfg="BoolDesign_deep.cfg")]

PROPS = {
    "P01": dict(designs=BOOLD, traces=[
        Trace("bool", "BoolTrace", shards=4, thorough_shards=4, args=["--mode", "all"],
              gen=Gen("BoolAll", exhaustive=True)),
        Trace("bool", "BoolTrace", shards=8, thorough_shards=8, args=["--mode", "circuits"],
              gen=Gen("BoolGen", num=64, depth=63, thorough_num=1500))]),
    "P02": dict(designs=[Design("BoolPmap", thorough_cfg="BoolPmap_deep.cfg")], traces=[
        Trace("bool", "BoolTrace", shards=4, thorough_shards=8, args=["--mode", "pmap"],
              gen=Gen("BoolPmap", cfg="BoolPmapGen.cfg", num=48, depth=100, thorough_num=400), env={"XLA_FLAGS": XLA8})]),
    "P03": cggi("p03", 8, BOOT, [Trace("cggi", "CggiTrace", shards=4, args=["--mode", "p03tpu"])]),
    "P04": cggi("p04", 4, CG),
    "P05": cggi("p05", 5, CG),
    "P06": cggi("p06", 6, CG),
    "P07": cggi("p07", 6, CG, [Trace("cggi", "CggiTrace", args=["--mode", "p07x"]), Trace("cggi", "CggiTrace", shards=4, args=["--mode", "p07tpu"])]),
    "P08": cggi("p08", 6, CG + BOOT[:1]),
    "P09": cggi("p09", 8, BOOT),
    "P10": dict(designs=[Design("RngGen", cfg="RngDesign.cfg")], traces=[
        Trace("misc", "MiscTrace", shards=4, thorough_shards=8, args=["--mode", "p10"],
              gen=Gen("RngGen", num=72, depth=27, thorough_num=2000))]),
    "P11": dict(designs=[Design("Conv", thorough_cfg="Conv_deep.cfg")], traces=[
        Trace("misc", "MiscTrace", shards=2, thorough_shards=4, args=["--mode", "p11"])]),
}

CK = [Design("CkksUnits", thorough_cfg="CkksUnits_deep.cfg")]


def ckks(mode, shards=6, designs=CK, extra=()):
  return dict(designs=designs,
              traces=[Trace("ckks", "CkksTrace", shards=shards, thorough_shards=8, args=["--mode", mode])] + list(extra))


PROPS.update({
    "P12": ckks("p12", 4, []),
    "P13": ckks("p13", 5),
    "P14": ckks("p14", 8),
    "P16": ckks("p16", 6),
    "P17": ckks("p17", 8),
    "P18": ckks("p18", 8),
    "P19": ckks("p19", 7),
    "P20": ckks("p20", 8),
    "P21": ckks("p21", 8),
})

PROPS.update({
    "P15": dict(designs=[Design("Rns", cfg="RnsDesign.cfg", thorough_cfg="RnsDesign_deep.cfg")], traces=[
        Trace("rns", "RnsTrace", shards=4, thorough_shards=8,
              gen=Gen("Rns", cfg="RnsGen.cfg", num=96, depth=42, thorough_num=800))]),
})

PROPS.update({
    "P22": dict(designs=[Design("Kern", cfg="KernDesign.cfg", thorough_cfg="KernDesign_deep.cfg")], traces=[
        Trace("ckks", "CkksTrace", shards=8, thorough_shards=8, args=["--mode", "p22"],
              gen=Gen("Kern", cfg="KernGen.cfg", num=96, depth=20, thorough_num=2000))]),
})

PROPS.update({
    "P23": dict(designs=[], traces=[Trace("ec", "EcTrace", shards=4, thorough_shards=8, args=["--mode", "p23"])]),
    "P24": dict(designs=[Design("EcChunk", thorough_cfg="EcChunk_deep.cfg")], traces=[Trace("ec", "EcTrace", shards=6, thorough_shards=8, args=["--mode", "p24"])]),
})

PROPS.update({
    "P25": dict(designs=[Design("EcRns", thorough_cfg="EcRns_deep.cfg"), Design("EcChain")], traces=[
        Trace("ec", "EcTrace", shards=6, thorough_shards=8, args=["--mode", "p25"],
              gen=Gen("EcChain", cfg="EcChainGen.cfg", num=96, depth=27, thorough_num=1200))]),
})

PROPS.update({
    "P27": dict(designs=[Design("Pip", thorough_cfg="Pip_deep.cfg"),
                         Design("Pip", cfg="Pip_par.cfg", thorough_cfg="Pip_par_deep.cfg")], traces=[
        Trace("ec", "EcTrace", shards=8, thorough_shards=8, args=["--mode", "p27"],
              gen=Gen("Pip", cfg="PipGen.cfg", num=6, depth=12, thorough_num=60))]),
})

PROPS.update({
    "P26": dict(designs=[Design("EcGroup", thorough_cfg="EcGroup_deep.cfg"), Design("EcWalk", thorough_cfg="EcWalk_deep.cfg")], traces=[
        Trace("ec", "EcTrace", shards=7, thorough_shards=7, args=["--mode", "p26x"],
              gen=Gen("EcWalk", cfg="EcWalkGenX.cfg", num=12, depth=15, thorough_num=200)),
        Trace("ec", "EcTrace", shards=3, thorough_shards=3, args=["--mode", "p26t"],
              gen=Gen("EcWalk", cfg="EcWalkGenT.cfg", num=14, depth=15, thorough_num=200))]),
})

PROPS.update({
    "P28": dict(designs=[Design("Prog", thorough_cfg="Prog_deep.cfg"), Design("Prog", cfg="Prog_wide.cfg", thorough_cfg="Prog_wide_deep.cfg"), Design("Prog", cfg="Prog_n2.cfg", thorough_cfg="Prog_n2_deep.cfg")], traces=[
        Trace("ckks", "ProgTrace", shards=8, thorough_shards=8, args=["--mode", "p28"],
              gen=Gen("Prog", cfg="ProgGen.cfg", num=48, depth=160, thorough_num=800))]),
})

PROPS.update({
    "P29": dict(designs=[Design("RefField", thorough_cfg="RefField_deep.cfg"), Design("RefCurve", thorough_cfg="RefCurve_deep.cfg")], traces=[
        Trace("ref", "RefTrace", shards=5, thorough_shards=8,
              gen=Gen("RefField", cfg="RefFieldGen.cfg", num=60, depth=300, thorough_num=2000))]),
})

PROPS.update({
    "P30": dict(designs=[Design("Lut", thorough_cfg="Lut_deep.cfg")], traces=[
        Trace("lut", "LutTrace", shards=3, thorough_shards=8, gen=Gen("Lut", cfg="LutGen.cfg", num=40, depth=60, thorough_num=600))]),
})

PROPS.update({
    "P31": dict(designs=[Design("BatchMap", thorough_cfg="BatchMap_deep.cfg")], traces=[
        Trace("batch", "BatchTrace", shards=3, thorough_shards=8,
              gen=Gen("BatchMap", cfg="BatchMapGen.cfg", num=300, depth=3, thorough_num=4000))]),
})

PROPS.update({
    "P32": dict(designs=[Design("Noise", thorough_cfg="Noise_deep.cfg"),
                         Design("Noise", cfg="Noise_wide.cfg", thorough_cfg="Noise_wide_deep.cfg")], traces=[
        Trace("noise", "NoiseTrace", shards=1, args=["--mode", "fresh"]),
        Trace("noise", "NoiseTrace", shards=4, thorough_shards=6, args=["--mode", "gates"])]),
})

PROPS.update({
    "P33": dict(designs=[Design("Tape", thorough_cfg="Tape_deep.cfg")], traces=[
        Trace("ckks", "TapeTrace", shards=4, thorough_shards=8, args=["--mode", "p33"],
              gen=Gen("Tape", cfg="TapeGen.cfg", num=160, depth=10, thorough_num=600))]),
})
