from . import checks_state as S, checks_io as IO, checks_spectra as SP, checks_misc as M, checks_data as D, checks_torch as T, checks_model as MO, checks_shape as SH, checks_misc2 as M2, checks_rules as RU, checks_text as TX, checks_resp as RS, checks_frames as FR, checks_write as W, checks_interp as IN, checks_read as RD
CHECKS = {"C01": S.c01, "C02": S.c02, "C03": S.c03, "C04": S.c04, "C05": IO.c05, "C06": IO.c06, "C08": IO.c08,
          "C12": SP.c12, "C13": SP.c13, "C14": SP.c14, "C27": SP.c27, "C28": SP.c28, "C16": SP.c16, "C15": M.c15, "C20": M.c20, "C29": D.c29, "C18": T.c18, "C19": T.c19, "C17": MO.c17,
          "C22": SH.c22, "C21": SH.c21, "C26": M2.c26, "C24": M2.c24, "C30": RU.c30, "C23": TX.c23,
          "C09": RS.c09, "C11": RS.c11, "C10": FR.c10, "C25": W.c25, "C41": IN.c41, "C07": RD.c07}
