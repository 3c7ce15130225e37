"""Documented register sets (docs/reference/writable-registers.md and the manifest's notes)."""


def r(*parts):
    out = set()
    for p in parts:
        out |= set(range(p[0], p[1] + 1)) if isinstance(p, tuple) else {p}
    return frozenset(out)


# "Standard write surface" (139 registers)
STANDARD = r(20, 27, 29, (31, 32), (35, 40), (44, 45), 50, (56, 57), 59, (94, 96), 104, (110, 112), 114, 116, 163, 166,
             172, 199, (246, 247), (249, 250), (252, 253), (255, 256), (258, 259), (261, 262), (264, 265), (267, 268),
             (276, 277), (279, 280), (282, 283), (285, 286), (288, 289), (291, 292), (294, 295), (297, 299), 311,
             (313, 314), (317, 320), 331, (554, 573), 1005, 1078, (1108, 1116), (1118, 1123), 2040, (2044, 2071),
             5010, 5014)  # fmt: skip

# "Installer write surface" (the documented tables; 301 and 479 are documented but not offered)
INSTALLER = r((63, 83), (101, 102), 115, 162, 174, 201, (300, 303), (305, 310), 312, (315, 316), (321, 330), (332, 351),
              479, (540, 548), (552, 553), 1016, 1048, 1063, 1077, (1081, 1087), (1102, 1103), (1125, 1131), 1144, 1149,
              1156, (1158, 1165), 4001, (5002, 5009), (5011, 5012), (20000, 20003), (20020, 20021), (20050, 20051))  # fmt: skip

assert not STANDARD & INSTALLER and len(STANDARD) == 139

# ----------------------------------------------------------------- per model (docs, manifest evidence notes)
MODELS = ("HYBRID", "AC", "HYBRID_3PH", "EMS", "AC_3PH", "GATEWAY", "ALL_IN_ONE", "HYBRID_GEN1", "HYBRID_GEN2", "HYBRID_GEN3",
          "POLAR", "AIO_COMMERCIAL", "EMS_COMMERCIAL", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID", "HYBRID_GEN4")  # fmt: skip
_tail = r(*((b, b + 1) for b in list(range(246, 269, 3)) + list(range(276, 299, 3))))
SINGLE_PHASE = r(20, 27, 29, (31, 32), (35, 40), (44, 45), 50, (56, 57), 59, (94, 96), (110, 112), 114, 116, 163, 166) | _tail
THREE_PHASE = (SINGLE_PHASE - r(94, 95, 31, 32, 56, 57, 44, 45, 96, 110, 116)) | r(1078, 1109, (1111, 1116), (1118, 1123))
EMS = r(2040, (2044, 2071))
AC_CONFIG = r(311, 313, 314, 317)

CAPABILITIES = {
    "is_hv": {"HYBRID_3PH", "AC_3PH", "ALL_IN_ONE", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID"},
    "is_three_phase": {"HYBRID_3PH", "AC_3PH", "AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID"},
    "is_ac_coupled": {"AC", "AC_3PH"},
    "has_ac_config_block": {"AC", "AC_3PH", "ALL_IN_ONE"},
    "has_smart_load_block": set(),
    "has_hv_cabinet_block": set(),
    "has_peak_shaving_block": set(),
    "is_ems": {"EMS", "EMS_COMMERCIAL"},
    "is_gateway": {"GATEWAY"},
}
EXTENDED_SLOTS = {"HYBRID_GEN4", "ALL_IN_ONE", "ALL_IN_ONE_HYBRID", "HYBRID_HV_GEN3"}
EXTENDED_ABOVE_FW = {"HYBRID_GEN3": 302}


def writable(model):
    """Registers the standard tier accepts for a model (None: not detected yet)."""
    if model in CAPABILITIES["is_ems"]:
        return EMS
    if model in CAPABILITIES["is_three_phase"]:
        return THREE_PHASE
    return SINGLE_PHASE | AC_CONFIG if model in CAPABILITIES["has_ac_config_block"] else SINGLE_PHASE


for _m in MODELS + (None,):
    assert writable(_m) <= STANDARD and not writable(_m) & INSTALLER
