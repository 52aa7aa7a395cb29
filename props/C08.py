"""C08 CVB0 inference conserves token counts"""
import cvb
cvb.build("C08", "lda_cvb0", ["n_dk", "n_kt", "n_k"])
