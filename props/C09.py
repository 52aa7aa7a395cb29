"""C09 CVB inference conserves token counts and variances"""
import cvb
cvb.build("C09", "lda_cvb", ["n_dk", "n_kt", "n_k", "v_dk", "v_kt", "v_k"])
