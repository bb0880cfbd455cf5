/**
 * @file suite_biobj_mixint_best_values_hyp.c
 *
 * @brief The best known hypervolume values for the bbob-biobj-mixint suite problems.
 *
 * @note TODO: Update the values (curently, they are all set to 1.0)
 *
 * @note Because this file is used for automatically retrieving the existing best hypervolume values for
 * pre-processing purposes, its formatting should not be altered. This means that there must be exactly one
 * string per line, the first string appearing on the next line after "static const char..." (no comments 
 * allowed in between). Nothing should be placed on the last line (line with };).
 */
static const char *suite_biobj_mixint_best_values_hyp[] = {
  "bbob-biobj-mixint_f001_i01_d005 1.0",
  "bbob-biobj-mixint_f001_i01_d010 1.0",
  "bbob-biobj-mixint_f001_i01_d020 1.0",
  "bbob-biobj-mixint_f001_i01_d040 1.0",
  "bbob-biobj-mixint_f001_i01_d080 1.0",
  "bbob-biobj-mixint_f001_i01_d160 1.0",
  "bbob-biobj-mixint_f001_i02_d005 1.0",
  "bbob-biobj-mixint_f001_i02_d010 1.0",
  "bbob-biobj-mixint_f001_i02_d020 1.0",
  "bbob-biobj-mixint_f001_i02_d040 1.0",
  "bbob-biobj-mixint_f001_i02_d080 1.0",
  "bbob-biobj-mixint_f001_i02_d160 1.0",
  "bbob-biobj-mixint_f001_i03_d005 1.0",
  "bbob-biobj-mixint_f001_i03_d010 1.0",
  "bbob-biobj-mixint_f001_i03_d020 1.0",
  "bbob-biobj-mixint_f001_i03_d040 1.0",
  "bbob-biobj-mixint_f001_i03_d080 1.0",
  "bbob-biobj-mixint_f001_i03_d160 1.0",
  "bbob-biobj-mixint_f001_i04_d005 1.0",
  "bbob-biobj-mixint_f001_i04_d010 1.0",
  "bbob-biobj-mixint_f001_i04_d020 1.0",
  "bbob-biobj-mixint_f001_i04_d040 1.0",
  "bbob-biobj-mixint_f001_i04_d080 1.0",
  "bbob-biobj-mixint_f001_i04_d160 1.0",
  "bbob-biobj-mixint_f001_i05_d005 1.0",
  "bbob-biobj-mixint_f001_i05_d010 1.0",
  "bbob-biobj-mixint_f001_i05_d020 1.0",
  "bbob-biobj-mixint_f001_i05_d040 1.0",
  "bbob-biobj-mixint_f001_i05_d080 1.0",
  "bbob-biobj-mixint_f001_i05_d160 1.0",
  "bbob-biobj-mixint_f001_i06_d005 1.0",
  "bbob-biobj-mixint_f001_i06_d010 1.0",
  "bbob-biobj-mixint_f001_i06_d020 1.0",
  "bbob-biobj-mixint_f001_i06_d040 1.0",
  "bbob-biobj-mixint_f001_i06_d080 1.0",
  "bbob-biobj-mixint_f001_i06_d160 1.0",
  "bbob-biobj-mixint_f001_i07_d005 1.0",
  "bbob-biobj-mixint_f001_i07_d010 1.0",
  "bbob-biobj-mixint_f001_i07_d020 1.0",
  "bbob-biobj-mixint_f001_i07_d040 1.0",
  "bbob-biobj-mixint_f001_i07_d080 1.0",
  "bbob-biobj-mixint_f001_i07_d160 1.0",
  "bbob-biobj-mixint_f001_i08_d005 1.0",
  "bbob-biobj-mixint_f001_i08_d010 1.0",
  "bbob-biobj-mixint_f001_i08_d020 1.0",
  "bbob-biobj-mixint_f001_i08_d040 1.0",
  "bbob-biobj-mixint_f001_i08_d080 1.0",
  "bbob-biobj-mixint_f001_i08_d160 1.0",
  "bbob-biobj-mixint_f001_i09_d005 1.0",
  "bbob-biobj-mixint_f001_i09_d010 1.0",
  "bbob-biobj-mixint_f001_i09_d020 1.0",
  "bbob-biobj-mixint_f001_i09_d040 1.0",
  "bbob-biobj-mixint_f001_i09_d080 1.0",
  "bbob-biobj-mixint_f001_i09_d160 1.0",
  "bbob-biobj-mixint_f001_i10_d005 1.0",
  "bbob-biobj-mixint_f001_i10_d010 1.0",
  "bbob-biobj-mixint_f001_i10_d020 1.0",
  "bbob-biobj-mixint_f001_i10_d040 1.0",
  "bbob-biobj-mixint_f001_i10_d080 1.0",
  "bbob-biobj-mixint_f001_i10_d160 1.0",
  "bbob-biobj-mixint_f001_i11_d005 1.0",
  "bbob-biobj-mixint_f001_i11_d010 1.0",
  "bbob-biobj-mixint_f001_i11_d020 1.0",
  "bbob-biobj-mixint_f001_i11_d040 1.0",
  "bbob-biobj-mixint_f001_i11_d080 1.0",
  "bbob-biobj-mixint_f001_i11_d160 1.0",
  "bbob-biobj-mixint_f001_i12_d005 1.0",
  "bbob-biobj-mixint_f001_i12_d010 1.0",
  "bbob-biobj-mixint_f001_i12_d020 1.0",
  "bbob-biobj-mixint_f001_i12_d040 1.0",
  "bbob-biobj-mixint_f001_i12_d080 1.0",
  "bbob-biobj-mixint_f001_i12_d160 1.0",
  "bbob-biobj-mixint_f001_i13_d005 1.0",
  "bbob-biobj-mixint_f001_i13_d010 1.0",
  "bbob-biobj-mixint_f001_i13_d020 1.0",
  "bbob-biobj-mixint_f001_i13_d040 1.0",
  "bbob-biobj-mixint_f001_i13_d080 1.0",
  "bbob-biobj-mixint_f001_i13_d160 1.0",
  "bbob-biobj-mixint_f001_i14_d005 1.0",
  "bbob-biobj-mixint_f001_i14_d010 1.0",
  "bbob-biobj-mixint_f001_i14_d020 1.0",
  "bbob-biobj-mixint_f001_i14_d040 1.0",
  "bbob-biobj-mixint_f001_i14_d080 1.0",
  "bbob-biobj-mixint_f001_i14_d160 1.0",
  "bbob-biobj-mixint_f001_i15_d005 1.0",
  "bbob-biobj-mixint_f001_i15_d010 1.0",
  "bbob-biobj-mixint_f001_i15_d020 1.0",
  "bbob-biobj-mixint_f001_i15_d040 1.0",
  "bbob-biobj-mixint_f001_i15_d080 1.0",
  "bbob-biobj-mixint_f001_i15_d160 1.0",
  "bbob-biobj-mixint_f002_i01_d005 1.0",
  "bbob-biobj-mixint_f002_i01_d010 1.0",
  "bbob-biobj-mixint_f002_i01_d020 1.0",
  "bbob-biobj-mixint_f002_i01_d040 1.0",
  "bbob-biobj-mixint_f002_i01_d080 1.0",
  "bbob-biobj-mixint_f002_i01_d160 1.0",
  "bbob-biobj-mixint_f002_i02_d005 1.0",
  "bbob-biobj-mixint_f002_i02_d010 1.0",
  "bbob-biobj-mixint_f002_i02_d020 1.0",
  "bbob-biobj-mixint_f002_i02_d040 1.0",
  "bbob-biobj-mixint_f002_i02_d080 1.0",
  "bbob-biobj-mixint_f002_i02_d160 1.0",
  "bbob-biobj-mixint_f002_i03_d005 1.0",
  "bbob-biobj-mixint_f002_i03_d010 1.0",
  "bbob-biobj-mixint_f002_i03_d020 1.0",
  "bbob-biobj-mixint_f002_i03_d040 1.0",
  "bbob-biobj-mixint_f002_i03_d080 1.0",
  "bbob-biobj-mixint_f002_i03_d160 1.0",
  "bbob-biobj-mixint_f002_i04_d005 1.0",
  "bbob-biobj-mixint_f002_i04_d010 1.0",
  "bbob-biobj-mixint_f002_i04_d020 1.0",
  "bbob-biobj-mixint_f002_i04_d040 1.0",
  "bbob-biobj-mixint_f002_i04_d080 1.0",
  "bbob-biobj-mixint_f002_i04_d160 1.0",
  "bbob-biobj-mixint_f002_i05_d005 1.0",
  "bbob-biobj-mixint_f002_i05_d010 1.0",
  "bbob-biobj-mixint_f002_i05_d020 1.0",
  "bbob-biobj-mixint_f002_i05_d040 1.0",
  "bbob-biobj-mixint_f002_i05_d080 1.0",
  "bbob-biobj-mixint_f002_i05_d160 1.0",
  "bbob-biobj-mixint_f002_i06_d005 1.0",
  "bbob-biobj-mixint_f002_i06_d010 1.0",
  "bbob-biobj-mixint_f002_i06_d020 1.0",
  "bbob-biobj-mixint_f002_i06_d040 1.0",
  "bbob-biobj-mixint_f002_i06_d080 1.0",
  "bbob-biobj-mixint_f002_i06_d160 1.0",
  "bbob-biobj-mixint_f002_i07_d005 1.0",
  "bbob-biobj-mixint_f002_i07_d010 1.0",
  "bbob-biobj-mixint_f002_i07_d020 1.0",
  "bbob-biobj-mixint_f002_i07_d040 1.0",
  "bbob-biobj-mixint_f002_i07_d080 1.0",
  "bbob-biobj-mixint_f002_i07_d160 1.0",
  "bbob-biobj-mixint_f002_i08_d005 1.0",
  "bbob-biobj-mixint_f002_i08_d010 1.0",
  "bbob-biobj-mixint_f002_i08_d020 1.0",
  "bbob-biobj-mixint_f002_i08_d040 1.0",
  "bbob-biobj-mixint_f002_i08_d080 1.0",
  "bbob-biobj-mixint_f002_i08_d160 1.0",
  "bbob-biobj-mixint_f002_i09_d005 1.0",
  "bbob-biobj-mixint_f002_i09_d010 1.0",
  "bbob-biobj-mixint_f002_i09_d020 1.0",
  "bbob-biobj-mixint_f002_i09_d040 1.0",
  "bbob-biobj-mixint_f002_i09_d080 1.0",
  "bbob-biobj-mixint_f002_i09_d160 1.0",
  "bbob-biobj-mixint_f002_i10_d005 1.0",
  "bbob-biobj-mixint_f002_i10_d010 1.0",
  "bbob-biobj-mixint_f002_i10_d020 1.0",
  "bbob-biobj-mixint_f002_i10_d040 1.0",
  "bbob-biobj-mixint_f002_i10_d080 1.0",
  "bbob-biobj-mixint_f002_i10_d160 1.0",
  "bbob-biobj-mixint_f002_i11_d005 1.0",
  "bbob-biobj-mixint_f002_i11_d010 1.0",
  "bbob-biobj-mixint_f002_i11_d020 1.0",
  "bbob-biobj-mixint_f002_i11_d040 1.0",
  "bbob-biobj-mixint_f002_i11_d080 1.0",
  "bbob-biobj-mixint_f002_i11_d160 1.0",
  "bbob-biobj-mixint_f002_i12_d005 1.0",
  "bbob-biobj-mixint_f002_i12_d010 1.0",
  "bbob-biobj-mixint_f002_i12_d020 1.0",
  "bbob-biobj-mixint_f002_i12_d040 1.0",
  "bbob-biobj-mixint_f002_i12_d080 1.0",
  "bbob-biobj-mixint_f002_i12_d160 1.0",
  "bbob-biobj-mixint_f002_i13_d005 1.0",
  "bbob-biobj-mixint_f002_i13_d010 1.0",
  "bbob-biobj-mixint_f002_i13_d020 1.0",
  "bbob-biobj-mixint_f002_i13_d040 1.0",
  "bbob-biobj-mixint_f002_i13_d080 1.0",
  "bbob-biobj-mixint_f002_i13_d160 1.0",
  "bbob-biobj-mixint_f002_i14_d005 1.0",
  "bbob-biobj-mixint_f002_i14_d010 1.0",
  "bbob-biobj-mixint_f002_i14_d020 1.0",
  "bbob-biobj-mixint_f002_i14_d040 1.0",
  "bbob-biobj-mixint_f002_i14_d080 1.0",
  "bbob-biobj-mixint_f002_i14_d160 1.0",
  "bbob-biobj-mixint_f002_i15_d005 1.0",
  "bbob-biobj-mixint_f002_i15_d010 1.0",
  "bbob-biobj-mixint_f002_i15_d020 1.0",
  "bbob-biobj-mixint_f002_i15_d040 1.0",
  "bbob-biobj-mixint_f002_i15_d080 1.0",
  "bbob-biobj-mixint_f002_i15_d160 1.0",
  "bbob-biobj-mixint_f003_i01_d005 1.0",
  "bbob-biobj-mixint_f003_i01_d010 1.0",
  "bbob-biobj-mixint_f003_i01_d020 1.0",
  "bbob-biobj-mixint_f003_i01_d040 1.0",
  "bbob-biobj-mixint_f003_i01_d080 1.0",
  "bbob-biobj-mixint_f003_i01_d160 1.0",
  "bbob-biobj-mixint_f003_i02_d005 1.0",
  "bbob-biobj-mixint_f003_i02_d010 1.0",
  "bbob-biobj-mixint_f003_i02_d020 1.0",
  "bbob-biobj-mixint_f003_i02_d040 1.0",
  "bbob-biobj-mixint_f003_i02_d080 1.0",
  "bbob-biobj-mixint_f003_i02_d160 1.0",
  "bbob-biobj-mixint_f003_i03_d005 1.0",
  "bbob-biobj-mixint_f003_i03_d010 1.0",
  "bbob-biobj-mixint_f003_i03_d020 1.0",
  "bbob-biobj-mixint_f003_i03_d040 1.0",
  "bbob-biobj-mixint_f003_i03_d080 1.0",
  "bbob-biobj-mixint_f003_i03_d160 1.0",
  "bbob-biobj-mixint_f003_i04_d005 1.0",
  "bbob-biobj-mixint_f003_i04_d010 1.0",
  "bbob-biobj-mixint_f003_i04_d020 1.0",
  "bbob-biobj-mixint_f003_i04_d040 1.0",
  "bbob-biobj-mixint_f003_i04_d080 1.0",
  "bbob-biobj-mixint_f003_i04_d160 1.0",
  "bbob-biobj-mixint_f003_i05_d005 1.0",
  "bbob-biobj-mixint_f003_i05_d010 1.0",
  "bbob-biobj-mixint_f003_i05_d020 1.0",
  "bbob-biobj-mixint_f003_i05_d040 1.0",
  "bbob-biobj-mixint_f003_i05_d080 1.0",
  "bbob-biobj-mixint_f003_i05_d160 1.0",
  "bbob-biobj-mixint_f003_i06_d005 1.0",
  "bbob-biobj-mixint_f003_i06_d010 1.0",
  "bbob-biobj-mixint_f003_i06_d020 1.0",
  "bbob-biobj-mixint_f003_i06_d040 1.0",
  "bbob-biobj-mixint_f003_i06_d080 1.0",
  "bbob-biobj-mixint_f003_i06_d160 1.0",
  "bbob-biobj-mixint_f003_i07_d005 1.0",
  "bbob-biobj-mixint_f003_i07_d010 1.0",
  "bbob-biobj-mixint_f003_i07_d020 1.0",
  "bbob-biobj-mixint_f003_i07_d040 1.0",
  "bbob-biobj-mixint_f003_i07_d080 1.0",
  "bbob-biobj-mixint_f003_i07_d160 1.0",
  "bbob-biobj-mixint_f003_i08_d005 1.0",
  "bbob-biobj-mixint_f003_i08_d010 1.0",
  "bbob-biobj-mixint_f003_i08_d020 1.0",
  "bbob-biobj-mixint_f003_i08_d040 1.0",
  "bbob-biobj-mixint_f003_i08_d080 1.0",
  "bbob-biobj-mixint_f003_i08_d160 1.0",
  "bbob-biobj-mixint_f003_i09_d005 1.0",
  "bbob-biobj-mixint_f003_i09_d010 1.0",
  "bbob-biobj-mixint_f003_i09_d020 1.0",
  "bbob-biobj-mixint_f003_i09_d040 1.0",
  "bbob-biobj-mixint_f003_i09_d080 1.0",
  "bbob-biobj-mixint_f003_i09_d160 1.0",
  "bbob-biobj-mixint_f003_i10_d005 1.0",
  "bbob-biobj-mixint_f003_i10_d010 1.0",
  "bbob-biobj-mixint_f003_i10_d020 1.0",
  "bbob-biobj-mixint_f003_i10_d040 1.0",
  "bbob-biobj-mixint_f003_i10_d080 1.0",
  "bbob-biobj-mixint_f003_i10_d160 1.0",
  "bbob-biobj-mixint_f003_i11_d005 1.0",
  "bbob-biobj-mixint_f003_i11_d010 1.0",
  "bbob-biobj-mixint_f003_i11_d020 1.0",
  "bbob-biobj-mixint_f003_i11_d040 1.0",
  "bbob-biobj-mixint_f003_i11_d080 1.0",
  "bbob-biobj-mixint_f003_i11_d160 1.0",
  "bbob-biobj-mixint_f003_i12_d005 1.0",
  "bbob-biobj-mixint_f003_i12_d010 1.0",
  "bbob-biobj-mixint_f003_i12_d020 1.0",
  "bbob-biobj-mixint_f003_i12_d040 1.0",
  "bbob-biobj-mixint_f003_i12_d080 1.0",
  "bbob-biobj-mixint_f003_i12_d160 1.0",
  "bbob-biobj-mixint_f003_i13_d005 1.0",
  "bbob-biobj-mixint_f003_i13_d010 1.0",
  "bbob-biobj-mixint_f003_i13_d020 1.0",
  "bbob-biobj-mixint_f003_i13_d040 1.0",
  "bbob-biobj-mixint_f003_i13_d080 1.0",
  "bbob-biobj-mixint_f003_i13_d160 1.0",
  "bbob-biobj-mixint_f003_i14_d005 1.0",
  "bbob-biobj-mixint_f003_i14_d010 1.0",
  "bbob-biobj-mixint_f003_i14_d020 1.0",
  "bbob-biobj-mixint_f003_i14_d040 1.0",
  "bbob-biobj-mixint_f003_i14_d080 1.0",
  "bbob-biobj-mixint_f003_i14_d160 1.0",
  "bbob-biobj-mixint_f003_i15_d005 1.0",
  "bbob-biobj-mixint_f003_i15_d010 1.0",
  "bbob-biobj-mixint_f003_i15_d020 1.0",
  "bbob-biobj-mixint_f003_i15_d040 1.0",
  "bbob-biobj-mixint_f003_i15_d080 1.0",
  "bbob-biobj-mixint_f003_i15_d160 1.0",
  "bbob-biobj-mixint_f004_i01_d005 1.0",
  "bbob-biobj-mixint_f004_i01_d010 1.0",
  "bbob-biobj-mixint_f004_i01_d020 1.0",
  "bbob-biobj-mixint_f004_i01_d040 1.0",
  "bbob-biobj-mixint_f004_i01_d080 1.0",
  "bbob-biobj-mixint_f004_i01_d160 1.0",
  "bbob-biobj-mixint_f004_i02_d005 1.0",
  "bbob-biobj-mixint_f004_i02_d010 1.0",
  "bbob-biobj-mixint_f004_i02_d020 1.0",
  "bbob-biobj-mixint_f004_i02_d040 1.0",
  "bbob-biobj-mixint_f004_i02_d080 1.0",
  "bbob-biobj-mixint_f004_i02_d160 1.0",
  "bbob-biobj-mixint_f004_i03_d005 1.0",
  "bbob-biobj-mixint_f004_i03_d010 1.0",
  "bbob-biobj-mixint_f004_i03_d020 1.0",
  "bbob-biobj-mixint_f004_i03_d040 1.0",
  "bbob-biobj-mixint_f004_i03_d080 1.0",
  "bbob-biobj-mixint_f004_i03_d160 1.0",
  "bbob-biobj-mixint_f004_i04_d005 1.0",
  "bbob-biobj-mixint_f004_i04_d010 1.0",
  "bbob-biobj-mixint_f004_i04_d020 1.0",
  "bbob-biobj-mixint_f004_i04_d040 1.0",
  "bbob-biobj-mixint_f004_i04_d080 1.0",
  "bbob-biobj-mixint_f004_i04_d160 1.0",
  "bbob-biobj-mixint_f004_i05_d005 1.0",
  "bbob-biobj-mixint_f004_i05_d010 1.0",
  "bbob-biobj-mixint_f004_i05_d020 1.0",
  "bbob-biobj-mixint_f004_i05_d040 1.0",
  "bbob-biobj-mixint_f004_i05_d080 1.0",
  "bbob-biobj-mixint_f004_i05_d160 1.0",
  "bbob-biobj-mixint_f004_i06_d005 1.0",
  "bbob-biobj-mixint_f004_i06_d010 1.0",
  "bbob-biobj-mixint_f004_i06_d020 1.0",
  "bbob-biobj-mixint_f004_i06_d040 1.0",
  "bbob-biobj-mixint_f004_i06_d080 1.0",
  "bbob-biobj-mixint_f004_i06_d160 1.0",
  "bbob-biobj-mixint_f004_i07_d005 1.0",
  "bbob-biobj-mixint_f004_i07_d010 1.0",
  "bbob-biobj-mixint_f004_i07_d020 1.0",
  "bbob-biobj-mixint_f004_i07_d040 1.0",
  "bbob-biobj-mixint_f004_i07_d080 1.0",
  "bbob-biobj-mixint_f004_i07_d160 1.0",
  "bbob-biobj-mixint_f004_i08_d005 1.0",
  "bbob-biobj-mixint_f004_i08_d010 1.0",
  "bbob-biobj-mixint_f004_i08_d020 1.0",
  "bbob-biobj-mixint_f004_i08_d040 1.0",
  "bbob-biobj-mixint_f004_i08_d080 1.0",
  "bbob-biobj-mixint_f004_i08_d160 1.0",
  "bbob-biobj-mixint_f004_i09_d005 1.0",
  "bbob-biobj-mixint_f004_i09_d010 1.0",
  "bbob-biobj-mixint_f004_i09_d020 1.0",
  "bbob-biobj-mixint_f004_i09_d040 1.0",
  "bbob-biobj-mixint_f004_i09_d080 1.0",
  "bbob-biobj-mixint_f004_i09_d160 1.0",
  "bbob-biobj-mixint_f004_i10_d005 1.0",
  "bbob-biobj-mixint_f004_i10_d010 1.0",
  "bbob-biobj-mixint_f004_i10_d020 1.0",
  "bbob-biobj-mixint_f004_i10_d040 1.0",
  "bbob-biobj-mixint_f004_i10_d080 1.0",
  "bbob-biobj-mixint_f004_i10_d160 1.0",
  "bbob-biobj-mixint_f004_i11_d005 1.0",
  "bbob-biobj-mixint_f004_i11_d010 1.0",
  "bbob-biobj-mixint_f004_i11_d020 1.0",
  "bbob-biobj-mixint_f004_i11_d040 1.0",
  "bbob-biobj-mixint_f004_i11_d080 1.0",
  "bbob-biobj-mixint_f004_i11_d160 1.0",
  "bbob-biobj-mixint_f004_i12_d005 1.0",
  "bbob-biobj-mixint_f004_i12_d010 1.0",
  "bbob-biobj-mixint_f004_i12_d020 1.0",
  "bbob-biobj-mixint_f004_i12_d040 1.0",
  "bbob-biobj-mixint_f004_i12_d080 1.0",
  "bbob-biobj-mixint_f004_i12_d160 1.0",
  "bbob-biobj-mixint_f004_i13_d005 1.0",
  "bbob-biobj-mixint_f004_i13_d010 1.0",
  "bbob-biobj-mixint_f004_i13_d020 1.0",
  "bbob-biobj-mixint_f004_i13_d040 1.0",
  "bbob-biobj-mixint_f004_i13_d080 1.0",
  "bbob-biobj-mixint_f004_i13_d160 1.0",
  "bbob-biobj-mixint_f004_i14_d005 1.0",
  "bbob-biobj-mixint_f004_i14_d010 1.0",
  "bbob-biobj-mixint_f004_i14_d020 1.0",
  "bbob-biobj-mixint_f004_i14_d040 1.0",
  "bbob-biobj-mixint_f004_i14_d080 1.0",
  "bbob-biobj-mixint_f004_i14_d160 1.0",
  "bbob-biobj-mixint_f004_i15_d005 1.0",
  "bbob-biobj-mixint_f004_i15_d010 1.0",
  "bbob-biobj-mixint_f004_i15_d020 1.0",
  "bbob-biobj-mixint_f004_i15_d040 1.0",
  "bbob-biobj-mixint_f004_i15_d080 1.0",
  "bbob-biobj-mixint_f004_i15_d160 1.0",
  "bbob-biobj-mixint_f005_i01_d005 1.0",
  "bbob-biobj-mixint_f005_i01_d010 1.0",
  "bbob-biobj-mixint_f005_i01_d020 1.0",
  "bbob-biobj-mixint_f005_i01_d040 1.0",
  "bbob-biobj-mixint_f005_i01_d080 1.0",
  "bbob-biobj-mixint_f005_i01_d160 1.0",
  "bbob-biobj-mixint_f005_i02_d005 1.0",
  "bbob-biobj-mixint_f005_i02_d010 1.0",
  "bbob-biobj-mixint_f005_i02_d020 1.0",
  "bbob-biobj-mixint_f005_i02_d040 1.0",
  "bbob-biobj-mixint_f005_i02_d080 1.0",
  "bbob-biobj-mixint_f005_i02_d160 1.0",
  "bbob-biobj-mixint_f005_i03_d005 1.0",
  "bbob-biobj-mixint_f005_i03_d010 1.0",
  "bbob-biobj-mixint_f005_i03_d020 1.0",
  "bbob-biobj-mixint_f005_i03_d040 1.0",
  "bbob-biobj-mixint_f005_i03_d080 1.0",
  "bbob-biobj-mixint_f005_i03_d160 1.0",
  "bbob-biobj-mixint_f005_i04_d005 1.0",
  "bbob-biobj-mixint_f005_i04_d010 1.0",
  "bbob-biobj-mixint_f005_i04_d020 1.0",
  "bbob-biobj-mixint_f005_i04_d040 1.0",
  "bbob-biobj-mixint_f005_i04_d080 1.0",
  "bbob-biobj-mixint_f005_i04_d160 1.0",
  "bbob-biobj-mixint_f005_i05_d005 1.0",
  "bbob-biobj-mixint_f005_i05_d010 1.0",
  "bbob-biobj-mixint_f005_i05_d020 1.0",
  "bbob-biobj-mixint_f005_i05_d040 1.0",
  "bbob-biobj-mixint_f005_i05_d080 1.0",
  "bbob-biobj-mixint_f005_i05_d160 1.0",
  "bbob-biobj-mixint_f005_i06_d005 1.0",
  "bbob-biobj-mixint_f005_i06_d010 1.0",
  "bbob-biobj-mixint_f005_i06_d020 1.0",
  "bbob-biobj-mixint_f005_i06_d040 1.0",
  "bbob-biobj-mixint_f005_i06_d080 1.0",
  "bbob-biobj-mixint_f005_i06_d160 1.0",
  "bbob-biobj-mixint_f005_i07_d005 1.0",
  "bbob-biobj-mixint_f005_i07_d010 1.0",
  "bbob-biobj-mixint_f005_i07_d020 1.0",
  "bbob-biobj-mixint_f005_i07_d040 1.0",
  "bbob-biobj-mixint_f005_i07_d080 1.0",
  "bbob-biobj-mixint_f005_i07_d160 1.0",
  "bbob-biobj-mixint_f005_i08_d005 1.0",
  "bbob-biobj-mixint_f005_i08_d010 1.0",
  "bbob-biobj-mixint_f005_i08_d020 1.0",
  "bbob-biobj-mixint_f005_i08_d040 1.0",
  "bbob-biobj-mixint_f005_i08_d080 1.0",
  "bbob-biobj-mixint_f005_i08_d160 1.0",
  "bbob-biobj-mixint_f005_i09_d005 1.0",
  "bbob-biobj-mixint_f005_i09_d010 1.0",
  "bbob-biobj-mixint_f005_i09_d020 1.0",
  "bbob-biobj-mixint_f005_i09_d040 1.0",
  "bbob-biobj-mixint_f005_i09_d080 1.0",
  "bbob-biobj-mixint_f005_i09_d160 1.0",
  "bbob-biobj-mixint_f005_i10_d005 1.0",
  "bbob-biobj-mixint_f005_i10_d010 1.0",
  "bbob-biobj-mixint_f005_i10_d020 1.0",
  "bbob-biobj-mixint_f005_i10_d040 1.0",
  "bbob-biobj-mixint_f005_i10_d080 1.0",
  "bbob-biobj-mixint_f005_i10_d160 1.0",
  "bbob-biobj-mixint_f005_i11_d005 1.0",
  "bbob-biobj-mixint_f005_i11_d010 1.0",
  "bbob-biobj-mixint_f005_i11_d020 1.0",
  "bbob-biobj-mixint_f005_i11_d040 1.0",
  "bbob-biobj-mixint_f005_i11_d080 1.0",
  "bbob-biobj-mixint_f005_i11_d160 1.0",
  "bbob-biobj-mixint_f005_i12_d005 1.0",
  "bbob-biobj-mixint_f005_i12_d010 1.0",
  "bbob-biobj-mixint_f005_i12_d020 1.0",
  "bbob-biobj-mixint_f005_i12_d040 1.0",
  "bbob-biobj-mixint_f005_i12_d080 1.0",
  "bbob-biobj-mixint_f005_i12_d160 1.0",
  "bbob-biobj-mixint_f005_i13_d005 1.0",
  "bbob-biobj-mixint_f005_i13_d010 1.0",
  "bbob-biobj-mixint_f005_i13_d020 1.0",
  "bbob-biobj-mixint_f005_i13_d040 1.0",
  "bbob-biobj-mixint_f005_i13_d080 1.0",
  "bbob-biobj-mixint_f005_i13_d160 1.0",
  "bbob-biobj-mixint_f005_i14_d005 1.0",
  "bbob-biobj-mixint_f005_i14_d010 1.0",
  "bbob-biobj-mixint_f005_i14_d020 1.0",
  "bbob-biobj-mixint_f005_i14_d040 1.0",
  "bbob-biobj-mixint_f005_i14_d080 1.0",
  "bbob-biobj-mixint_f005_i14_d160 1.0",
  "bbob-biobj-mixint_f005_i15_d005 1.0",
  "bbob-biobj-mixint_f005_i15_d010 1.0",
  "bbob-biobj-mixint_f005_i15_d020 1.0",
  "bbob-biobj-mixint_f005_i15_d040 1.0",
  "bbob-biobj-mixint_f005_i15_d080 1.0",
  "bbob-biobj-mixint_f005_i15_d160 1.0",
  "bbob-biobj-mixint_f006_i01_d005 1.0",
  "bbob-biobj-mixint_f006_i01_d010 1.0",
  "bbob-biobj-mixint_f006_i01_d020 1.0",
  "bbob-biobj-mixint_f006_i01_d040 1.0",
  "bbob-biobj-mixint_f006_i01_d080 1.0",
  "bbob-biobj-mixint_f006_i01_d160 1.0",
  "bbob-biobj-mixint_f006_i02_d005 1.0",
  "bbob-biobj-mixint_f006_i02_d010 1.0",
  "bbob-biobj-mixint_f006_i02_d020 1.0",
  "bbob-biobj-mixint_f006_i02_d040 1.0",
  "bbob-biobj-mixint_f006_i02_d080 1.0",
  "bbob-biobj-mixint_f006_i02_d160 1.0",
  "bbob-biobj-mixint_f006_i03_d005 1.0",
  "bbob-biobj-mixint_f006_i03_d010 1.0",
  "bbob-biobj-mixint_f006_i03_d020 1.0",
  "bbob-biobj-mixint_f006_i03_d040 1.0",
  "bbob-biobj-mixint_f006_i03_d080 1.0",
  "bbob-biobj-mixint_f006_i03_d160 1.0",
  "bbob-biobj-mixint_f006_i04_d005 1.0",
  "bbob-biobj-mixint_f006_i04_d010 1.0",
  "bbob-biobj-mixint_f006_i04_d020 1.0",
  "bbob-biobj-mixint_f006_i04_d040 1.0",
  "bbob-biobj-mixint_f006_i04_d080 1.0",
  "bbob-biobj-mixint_f006_i04_d160 1.0",
  "bbob-biobj-mixint_f006_i05_d005 1.0",
  "bbob-biobj-mixint_f006_i05_d010 1.0",
  "bbob-biobj-mixint_f006_i05_d020 1.0",
  "bbob-biobj-mixint_f006_i05_d040 1.0",
  "bbob-biobj-mixint_f006_i05_d080 1.0",
  "bbob-biobj-mixint_f006_i05_d160 1.0",
  "bbob-biobj-mixint_f006_i06_d005 1.0",
  "bbob-biobj-mixint_f006_i06_d010 1.0",
  "bbob-biobj-mixint_f006_i06_d020 1.0",
  "bbob-biobj-mixint_f006_i06_d040 1.0",
  "bbob-biobj-mixint_f006_i06_d080 1.0",
  "bbob-biobj-mixint_f006_i06_d160 1.0",
  "bbob-biobj-mixint_f006_i07_d005 1.0",
  "bbob-biobj-mixint_f006_i07_d010 1.0",
  "bbob-biobj-mixint_f006_i07_d020 1.0",
  "bbob-biobj-mixint_f006_i07_d040 1.0",
  "bbob-biobj-mixint_f006_i07_d080 1.0",
  "bbob-biobj-mixint_f006_i07_d160 1.0",
  "bbob-biobj-mixint_f006_i08_d005 1.0",
  "bbob-biobj-mixint_f006_i08_d010 1.0",
  "bbob-biobj-mixint_f006_i08_d020 1.0",
  "bbob-biobj-mixint_f006_i08_d040 1.0",
  "bbob-biobj-mixint_f006_i08_d080 1.0",
  "bbob-biobj-mixint_f006_i08_d160 1.0",
  "bbob-biobj-mixint_f006_i09_d005 1.0",
  "bbob-biobj-mixint_f006_i09_d010 1.0",
  "bbob-biobj-mixint_f006_i09_d020 1.0",
  "bbob-biobj-mixint_f006_i09_d040 1.0",
  "bbob-biobj-mixint_f006_i09_d080 1.0",
  "bbob-biobj-mixint_f006_i09_d160 1.0",
  "bbob-biobj-mixint_f006_i10_d005 1.0",
  "bbob-biobj-mixint_f006_i10_d010 1.0",
  "bbob-biobj-mixint_f006_i10_d020 1.0",
  "bbob-biobj-mixint_f006_i10_d040 1.0",
  "bbob-biobj-mixint_f006_i10_d080 1.0",
  "bbob-biobj-mixint_f006_i10_d160 1.0",
  "bbob-biobj-mixint_f006_i11_d005 1.0",
  "bbob-biobj-mixint_f006_i11_d010 1.0",
  "bbob-biobj-mixint_f006_i11_d020 1.0",
  "bbob-biobj-mixint_f006_i11_d040 1.0",
  "bbob-biobj-mixint_f006_i11_d080 1.0",
  "bbob-biobj-mixint_f006_i11_d160 1.0",
  "bbob-biobj-mixint_f006_i12_d005 1.0",
  "bbob-biobj-mixint_f006_i12_d010 1.0",
  "bbob-biobj-mixint_f006_i12_d020 1.0",
  "bbob-biobj-mixint_f006_i12_d040 1.0",
  "bbob-biobj-mixint_f006_i12_d080 1.0",
  "bbob-biobj-mixint_f006_i12_d160 1.0",
  "bbob-biobj-mixint_f006_i13_d005 1.0",
  "bbob-biobj-mixint_f006_i13_d010 1.0",
  "bbob-biobj-mixint_f006_i13_d020 1.0",
  "bbob-biobj-mixint_f006_i13_d040 1.0",
  "bbob-biobj-mixint_f006_i13_d080 1.0",
  "bbob-biobj-mixint_f006_i13_d160 1.0",
  "bbob-biobj-mixint_f006_i14_d005 1.0",
  "bbob-biobj-mixint_f006_i14_d010 1.0",
  "bbob-biobj-mixint_f006_i14_d020 1.0",
  "bbob-biobj-mixint_f006_i14_d040 1.0",
  "bbob-biobj-mixint_f006_i14_d080 1.0",
  "bbob-biobj-mixint_f006_i14_d160 1.0",
  "bbob-biobj-mixint_f006_i15_d005 1.0",
  "bbob-biobj-mixint_f006_i15_d010 1.0",
  "bbob-biobj-mixint_f006_i15_d020 1.0",
  "bbob-biobj-mixint_f006_i15_d040 1.0",
  "bbob-biobj-mixint_f006_i15_d080 1.0",
  "bbob-biobj-mixint_f006_i15_d160 1.0",
  "bbob-biobj-mixint_f007_i01_d005 1.0",
  "bbob-biobj-mixint_f007_i01_d010 1.0",
  "bbob-biobj-mixint_f007_i01_d020 1.0",
  "bbob-biobj-mixint_f007_i01_d040 1.0",
  "bbob-biobj-mixint_f007_i01_d080 1.0",
  "bbob-biobj-mixint_f007_i01_d160 1.0",
  "bbob-biobj-mixint_f007_i02_d005 1.0",
  "bbob-biobj-mixint_f007_i02_d010 1.0",
  "bbob-biobj-mixint_f007_i02_d020 1.0",
  "bbob-biobj-mixint_f007_i02_d040 1.0",
  "bbob-biobj-mixint_f007_i02_d080 1.0",
  "bbob-biobj-mixint_f007_i02_d160 1.0",
  "bbob-biobj-mixint_f007_i03_d005 1.0",
  "bbob-biobj-mixint_f007_i03_d010 1.0",
  "bbob-biobj-mixint_f007_i03_d020 1.0",
  "bbob-biobj-mixint_f007_i03_d040 1.0",
  "bbob-biobj-mixint_f007_i03_d080 1.0",
  "bbob-biobj-mixint_f007_i03_d160 1.0",
  "bbob-biobj-mixint_f007_i04_d005 1.0",
  "bbob-biobj-mixint_f007_i04_d010 1.0",
  "bbob-biobj-mixint_f007_i04_d020 1.0",
  "bbob-biobj-mixint_f007_i04_d040 1.0",
  "bbob-biobj-mixint_f007_i04_d080 1.0",
  "bbob-biobj-mixint_f007_i04_d160 1.0",
  "bbob-biobj-mixint_f007_i05_d005 1.0",
  "bbob-biobj-mixint_f007_i05_d010 1.0",
  "bbob-biobj-mixint_f007_i05_d020 1.0",
  "bbob-biobj-mixint_f007_i05_d040 1.0",
  "bbob-biobj-mixint_f007_i05_d080 1.0",
  "bbob-biobj-mixint_f007_i05_d160 1.0",
  "bbob-biobj-mixint_f007_i06_d005 1.0",
  "bbob-biobj-mixint_f007_i06_d010 1.0",
  "bbob-biobj-mixint_f007_i06_d020 1.0",
  "bbob-biobj-mixint_f007_i06_d040 1.0",
  "bbob-biobj-mixint_f007_i06_d080 1.0",
  "bbob-biobj-mixint_f007_i06_d160 1.0",
  "bbob-biobj-mixint_f007_i07_d005 1.0",
  "bbob-biobj-mixint_f007_i07_d010 1.0",
  "bbob-biobj-mixint_f007_i07_d020 1.0",
  "bbob-biobj-mixint_f007_i07_d040 1.0",
  "bbob-biobj-mixint_f007_i07_d080 1.0",
  "bbob-biobj-mixint_f007_i07_d160 1.0",
  "bbob-biobj-mixint_f007_i08_d005 1.0",
  "bbob-biobj-mixint_f007_i08_d010 1.0",
  "bbob-biobj-mixint_f007_i08_d020 1.0",
  "bbob-biobj-mixint_f007_i08_d040 1.0",
  "bbob-biobj-mixint_f007_i08_d080 1.0",
  "bbob-biobj-mixint_f007_i08_d160 1.0",
  "bbob-biobj-mixint_f007_i09_d005 1.0",
  "bbob-biobj-mixint_f007_i09_d010 1.0",
  "bbob-biobj-mixint_f007_i09_d020 1.0",
  "bbob-biobj-mixint_f007_i09_d040 1.0",
  "bbob-biobj-mixint_f007_i09_d080 1.0",
  "bbob-biobj-mixint_f007_i09_d160 1.0",
  "bbob-biobj-mixint_f007_i10_d005 1.0",
  "bbob-biobj-mixint_f007_i10_d010 1.0",
  "bbob-biobj-mixint_f007_i10_d020 1.0",
  "bbob-biobj-mixint_f007_i10_d040 1.0",
  "bbob-biobj-mixint_f007_i10_d080 1.0",
  "bbob-biobj-mixint_f007_i10_d160 1.0",
  "bbob-biobj-mixint_f007_i11_d005 1.0",
  "bbob-biobj-mixint_f007_i11_d010 1.0",
  "bbob-biobj-mixint_f007_i11_d020 1.0",
  "bbob-biobj-mixint_f007_i11_d040 1.0",
  "bbob-biobj-mixint_f007_i11_d080 1.0",
  "bbob-biobj-mixint_f007_i11_d160 1.0",
  "bbob-biobj-mixint_f007_i12_d005 1.0",
  "bbob-biobj-mixint_f007_i12_d010 1.0",
  "bbob-biobj-mixint_f007_i12_d020 1.0",
  "bbob-biobj-mixint_f007_i12_d040 1.0",
  "bbob-biobj-mixint_f007_i12_d080 1.0",
  "bbob-biobj-mixint_f007_i12_d160 1.0",
  "bbob-biobj-mixint_f007_i13_d005 1.0",
  "bbob-biobj-mixint_f007_i13_d010 1.0",
  "bbob-biobj-mixint_f007_i13_d020 1.0",
  "bbob-biobj-mixint_f007_i13_d040 1.0",
  "bbob-biobj-mixint_f007_i13_d080 1.0",
  "bbob-biobj-mixint_f007_i13_d160 1.0",
  "bbob-biobj-mixint_f007_i14_d005 1.0",
  "bbob-biobj-mixint_f007_i14_d010 1.0",
  "bbob-biobj-mixint_f007_i14_d020 1.0",
  "bbob-biobj-mixint_f007_i14_d040 1.0",
  "bbob-biobj-mixint_f007_i14_d080 1.0",
  "bbob-biobj-mixint_f007_i14_d160 1.0",
  "bbob-biobj-mixint_f007_i15_d005 1.0",
  "bbob-biobj-mixint_f007_i15_d010 1.0",
  "bbob-biobj-mixint_f007_i15_d020 1.0",
  "bbob-biobj-mixint_f007_i15_d040 1.0",
  "bbob-biobj-mixint_f007_i15_d080 1.0",
  "bbob-biobj-mixint_f007_i15_d160 1.0",
  "bbob-biobj-mixint_f008_i01_d005 1.0",
  "bbob-biobj-mixint_f008_i01_d010 1.0",
  "bbob-biobj-mixint_f008_i01_d020 1.0",
  "bbob-biobj-mixint_f008_i01_d040 1.0",
  "bbob-biobj-mixint_f008_i01_d080 1.0",
  "bbob-biobj-mixint_f008_i01_d160 1.0",
  "bbob-biobj-mixint_f008_i02_d005 1.0",
  "bbob-biobj-mixint_f008_i02_d010 1.0",
  "bbob-biobj-mixint_f008_i02_d020 1.0",
  "bbob-biobj-mixint_f008_i02_d040 1.0",
  "bbob-biobj-mixint_f008_i02_d080 1.0",
  "bbob-biobj-mixint_f008_i02_d160 1.0",
  "bbob-biobj-mixint_f008_i03_d005 1.0",
  "bbob-biobj-mixint_f008_i03_d010 1.0",
  "bbob-biobj-mixint_f008_i03_d020 1.0",
  "bbob-biobj-mixint_f008_i03_d040 1.0",
  "bbob-biobj-mixint_f008_i03_d080 1.0",
  "bbob-biobj-mixint_f008_i03_d160 1.0",
  "bbob-biobj-mixint_f008_i04_d005 1.0",
  "bbob-biobj-mixint_f008_i04_d010 1.0",
  "bbob-biobj-mixint_f008_i04_d020 1.0",
  "bbob-biobj-mixint_f008_i04_d040 1.0",
  "bbob-biobj-mixint_f008_i04_d080 1.0",
  "bbob-biobj-mixint_f008_i04_d160 1.0",
  "bbob-biobj-mixint_f008_i05_d005 1.0",
  "bbob-biobj-mixint_f008_i05_d010 1.0",
  "bbob-biobj-mixint_f008_i05_d020 1.0",
  "bbob-biobj-mixint_f008_i05_d040 1.0",
  "bbob-biobj-mixint_f008_i05_d080 1.0",
  "bbob-biobj-mixint_f008_i05_d160 1.0",
  "bbob-biobj-mixint_f008_i06_d005 1.0",
  "bbob-biobj-mixint_f008_i06_d010 1.0",
  "bbob-biobj-mixint_f008_i06_d020 1.0",
  "bbob-biobj-mixint_f008_i06_d040 1.0",
  "bbob-biobj-mixint_f008_i06_d080 1.0",
  "bbob-biobj-mixint_f008_i06_d160 1.0",
  "bbob-biobj-mixint_f008_i07_d005 1.0",
  "bbob-biobj-mixint_f008_i07_d010 1.0",
  "bbob-biobj-mixint_f008_i07_d020 1.0",
  "bbob-biobj-mixint_f008_i07_d040 1.0",
  "bbob-biobj-mixint_f008_i07_d080 1.0",
  "bbob-biobj-mixint_f008_i07_d160 1.0",
  "bbob-biobj-mixint_f008_i08_d005 1.0",
  "bbob-biobj-mixint_f008_i08_d010 1.0",
  "bbob-biobj-mixint_f008_i08_d020 1.0",
  "bbob-biobj-mixint_f008_i08_d040 1.0",
  "bbob-biobj-mixint_f008_i08_d080 1.0",
  "bbob-biobj-mixint_f008_i08_d160 1.0",
  "bbob-biobj-mixint_f008_i09_d005 1.0",
  "bbob-biobj-mixint_f008_i09_d010 1.0",
  "bbob-biobj-mixint_f008_i09_d020 1.0",
  "bbob-biobj-mixint_f008_i09_d040 1.0",
  "bbob-biobj-mixint_f008_i09_d080 1.0",
  "bbob-biobj-mixint_f008_i09_d160 1.0",
  "bbob-biobj-mixint_f008_i10_d005 1.0",
  "bbob-biobj-mixint_f008_i10_d010 1.0",
  "bbob-biobj-mixint_f008_i10_d020 1.0",
  "bbob-biobj-mixint_f008_i10_d040 1.0",
  "bbob-biobj-mixint_f008_i10_d080 1.0",
  "bbob-biobj-mixint_f008_i10_d160 1.0",
  "bbob-biobj-mixint_f008_i11_d005 1.0",
  "bbob-biobj-mixint_f008_i11_d010 1.0",
  "bbob-biobj-mixint_f008_i11_d020 1.0",
  "bbob-biobj-mixint_f008_i11_d040 1.0",
  "bbob-biobj-mixint_f008_i11_d080 1.0",
  "bbob-biobj-mixint_f008_i11_d160 1.0",
  "bbob-biobj-mixint_f008_i12_d005 1.0",
  "bbob-biobj-mixint_f008_i12_d010 1.0",
  "bbob-biobj-mixint_f008_i12_d020 1.0",
  "bbob-biobj-mixint_f008_i12_d040 1.0",
  "bbob-biobj-mixint_f008_i12_d080 1.0",
  "bbob-biobj-mixint_f008_i12_d160 1.0",
  "bbob-biobj-mixint_f008_i13_d005 1.0",
  "bbob-biobj-mixint_f008_i13_d010 1.0",
  "bbob-biobj-mixint_f008_i13_d020 1.0",
  "bbob-biobj-mixint_f008_i13_d040 1.0",
  "bbob-biobj-mixint_f008_i13_d080 1.0",
  "bbob-biobj-mixint_f008_i13_d160 1.0",
  "bbob-biobj-mixint_f008_i14_d005 1.0",
  "bbob-biobj-mixint_f008_i14_d010 1.0",
  "bbob-biobj-mixint_f008_i14_d020 1.0",
  "bbob-biobj-mixint_f008_i14_d040 1.0",
  "bbob-biobj-mixint_f008_i14_d080 1.0",
  "bbob-biobj-mixint_f008_i14_d160 1.0",
  "bbob-biobj-mixint_f008_i15_d005 1.0",
  "bbob-biobj-mixint_f008_i15_d010 1.0",
  "bbob-biobj-mixint_f008_i15_d020 1.0",
  "bbob-biobj-mixint_f008_i15_d040 1.0",
  "bbob-biobj-mixint_f008_i15_d080 1.0",
  "bbob-biobj-mixint_f008_i15_d160 1.0",
  "bbob-biobj-mixint_f009_i01_d005 1.0",
  "bbob-biobj-mixint_f009_i01_d010 1.0",
  "bbob-biobj-mixint_f009_i01_d020 1.0",
  "bbob-biobj-mixint_f009_i01_d040 1.0",
  "bbob-biobj-mixint_f009_i01_d080 1.0",
  "bbob-biobj-mixint_f009_i01_d160 1.0",
  "bbob-biobj-mixint_f009_i02_d005 1.0",
  "bbob-biobj-mixint_f009_i02_d010 1.0",
  "bbob-biobj-mixint_f009_i02_d020 1.0",
  "bbob-biobj-mixint_f009_i02_d040 1.0",
  "bbob-biobj-mixint_f009_i02_d080 1.0",
  "bbob-biobj-mixint_f009_i02_d160 1.0",
  "bbob-biobj-mixint_f009_i03_d005 1.0",
  "bbob-biobj-mixint_f009_i03_d010 1.0",
  "bbob-biobj-mixint_f009_i03_d020 1.0",
  "bbob-biobj-mixint_f009_i03_d040 1.0",
  "bbob-biobj-mixint_f009_i03_d080 1.0",
  "bbob-biobj-mixint_f009_i03_d160 1.0",
  "bbob-biobj-mixint_f009_i04_d005 1.0",
  "bbob-biobj-mixint_f009_i04_d010 1.0",
  "bbob-biobj-mixint_f009_i04_d020 1.0",
  "bbob-biobj-mixint_f009_i04_d040 1.0",
  "bbob-biobj-mixint_f009_i04_d080 1.0",
  "bbob-biobj-mixint_f009_i04_d160 1.0",
  "bbob-biobj-mixint_f009_i05_d005 1.0",
  "bbob-biobj-mixint_f009_i05_d010 1.0",
  "bbob-biobj-mixint_f009_i05_d020 1.0",
  "bbob-biobj-mixint_f009_i05_d040 1.0",
  "bbob-biobj-mixint_f009_i05_d080 1.0",
  "bbob-biobj-mixint_f009_i05_d160 1.0",
  "bbob-biobj-mixint_f009_i06_d005 1.0",
  "bbob-biobj-mixint_f009_i06_d010 1.0",
  "bbob-biobj-mixint_f009_i06_d020 1.0",
  "bbob-biobj-mixint_f009_i06_d040 1.0",
  "bbob-biobj-mixint_f009_i06_d080 1.0",
  "bbob-biobj-mixint_f009_i06_d160 1.0",
  "bbob-biobj-mixint_f009_i07_d005 1.0",
  "bbob-biobj-mixint_f009_i07_d010 1.0",
  "bbob-biobj-mixint_f009_i07_d020 1.0",
  "bbob-biobj-mixint_f009_i07_d040 1.0",
  "bbob-biobj-mixint_f009_i07_d080 1.0",
  "bbob-biobj-mixint_f009_i07_d160 1.0",
  "bbob-biobj-mixint_f009_i08_d005 1.0",
  "bbob-biobj-mixint_f009_i08_d010 1.0",
  "bbob-biobj-mixint_f009_i08_d020 1.0",
  "bbob-biobj-mixint_f009_i08_d040 1.0",
  "bbob-biobj-mixint_f009_i08_d080 1.0",
  "bbob-biobj-mixint_f009_i08_d160 1.0",
  "bbob-biobj-mixint_f009_i09_d005 1.0",
  "bbob-biobj-mixint_f009_i09_d010 1.0",
  "bbob-biobj-mixint_f009_i09_d020 1.0",
  "bbob-biobj-mixint_f009_i09_d040 1.0",
  "bbob-biobj-mixint_f009_i09_d080 1.0",
  "bbob-biobj-mixint_f009_i09_d160 1.0",
  "bbob-biobj-mixint_f009_i10_d005 1.0",
  "bbob-biobj-mixint_f009_i10_d010 1.0",
  "bbob-biobj-mixint_f009_i10_d020 1.0",
  "bbob-biobj-mixint_f009_i10_d040 1.0",
  "bbob-biobj-mixint_f009_i10_d080 1.0",
  "bbob-biobj-mixint_f009_i10_d160 1.0",
  "bbob-biobj-mixint_f009_i11_d005 1.0",
  "bbob-biobj-mixint_f009_i11_d010 1.0",
  "bbob-biobj-mixint_f009_i11_d020 1.0",
  "bbob-biobj-mixint_f009_i11_d040 1.0",
  "bbob-biobj-mixint_f009_i11_d080 1.0",
  "bbob-biobj-mixint_f009_i11_d160 1.0",
  "bbob-biobj-mixint_f009_i12_d005 1.0",
  "bbob-biobj-mixint_f009_i12_d010 1.0",
  "bbob-biobj-mixint_f009_i12_d020 1.0",
  "bbob-biobj-mixint_f009_i12_d040 1.0",
  "bbob-biobj-mixint_f009_i12_d080 1.0",
  "bbob-biobj-mixint_f009_i12_d160 1.0",
  "bbob-biobj-mixint_f009_i13_d005 1.0",
  "bbob-biobj-mixint_f009_i13_d010 1.0",
  "bbob-biobj-mixint_f009_i13_d020 1.0",
  "bbob-biobj-mixint_f009_i13_d040 1.0",
  "bbob-biobj-mixint_f009_i13_d080 1.0",
  "bbob-biobj-mixint_f009_i13_d160 1.0",
  "bbob-biobj-mixint_f009_i14_d005 1.0",
  "bbob-biobj-mixint_f009_i14_d010 1.0",
  "bbob-biobj-mixint_f009_i14_d020 1.0",
  "bbob-biobj-mixint_f009_i14_d040 1.0",
  "bbob-biobj-mixint_f009_i14_d080 1.0",
  "bbob-biobj-mixint_f009_i14_d160 1.0",
  "bbob-biobj-mixint_f009_i15_d005 1.0",
  "bbob-biobj-mixint_f009_i15_d010 1.0",
  "bbob-biobj-mixint_f009_i15_d020 1.0",
  "bbob-biobj-mixint_f009_i15_d040 1.0",
  "bbob-biobj-mixint_f009_i15_d080 1.0",
  "bbob-biobj-mixint_f009_i15_d160 1.0",
  "bbob-biobj-mixint_f010_i01_d005 1.0",
  "bbob-biobj-mixint_f010_i01_d010 1.0",
  "bbob-biobj-mixint_f010_i01_d020 1.0",
  "bbob-biobj-mixint_f010_i01_d040 1.0",
  "bbob-biobj-mixint_f010_i01_d080 1.0",
  "bbob-biobj-mixint_f010_i01_d160 1.0",
  "bbob-biobj-mixint_f010_i02_d005 1.0",
  "bbob-biobj-mixint_f010_i02_d010 1.0",
  "bbob-biobj-mixint_f010_i02_d020 1.0",
  "bbob-biobj-mixint_f010_i02_d040 1.0",
  "bbob-biobj-mixint_f010_i02_d080 1.0",
  "bbob-biobj-mixint_f010_i02_d160 1.0",
  "bbob-biobj-mixint_f010_i03_d005 1.0",
  "bbob-biobj-mixint_f010_i03_d010 1.0",
  "bbob-biobj-mixint_f010_i03_d020 1.0",
  "bbob-biobj-mixint_f010_i03_d040 1.0",
  "bbob-biobj-mixint_f010_i03_d080 1.0",
  "bbob-biobj-mixint_f010_i03_d160 1.0",
  "bbob-biobj-mixint_f010_i04_d005 1.0",
  "bbob-biobj-mixint_f010_i04_d010 1.0",
  "bbob-biobj-mixint_f010_i04_d020 1.0",
  "bbob-biobj-mixint_f010_i04_d040 1.0",
  "bbob-biobj-mixint_f010_i04_d080 1.0",
  "bbob-biobj-mixint_f010_i04_d160 1.0",
  "bbob-biobj-mixint_f010_i05_d005 1.0",
  "bbob-biobj-mixint_f010_i05_d010 1.0",
  "bbob-biobj-mixint_f010_i05_d020 1.0",
  "bbob-biobj-mixint_f010_i05_d040 1.0",
  "bbob-biobj-mixint_f010_i05_d080 1.0",
  "bbob-biobj-mixint_f010_i05_d160 1.0",
  "bbob-biobj-mixint_f010_i06_d005 1.0",
  "bbob-biobj-mixint_f010_i06_d010 1.0",
  "bbob-biobj-mixint_f010_i06_d020 1.0",
  "bbob-biobj-mixint_f010_i06_d040 1.0",
  "bbob-biobj-mixint_f010_i06_d080 1.0",
  "bbob-biobj-mixint_f010_i06_d160 1.0",
  "bbob-biobj-mixint_f010_i07_d005 1.0",
  "bbob-biobj-mixint_f010_i07_d010 1.0",
  "bbob-biobj-mixint_f010_i07_d020 1.0",
  "bbob-biobj-mixint_f010_i07_d040 1.0",
  "bbob-biobj-mixint_f010_i07_d080 1.0",
  "bbob-biobj-mixint_f010_i07_d160 1.0",
  "bbob-biobj-mixint_f010_i08_d005 1.0",
  "bbob-biobj-mixint_f010_i08_d010 1.0",
  "bbob-biobj-mixint_f010_i08_d020 1.0",
  "bbob-biobj-mixint_f010_i08_d040 1.0",
  "bbob-biobj-mixint_f010_i08_d080 1.0",
  "bbob-biobj-mixint_f010_i08_d160 1.0",
  "bbob-biobj-mixint_f010_i09_d005 1.0",
  "bbob-biobj-mixint_f010_i09_d010 1.0",
  "bbob-biobj-mixint_f010_i09_d020 1.0",
  "bbob-biobj-mixint_f010_i09_d040 1.0",
  "bbob-biobj-mixint_f010_i09_d080 1.0",
  "bbob-biobj-mixint_f010_i09_d160 1.0",
  "bbob-biobj-mixint_f010_i10_d005 1.0",
  "bbob-biobj-mixint_f010_i10_d010 1.0",
  "bbob-biobj-mixint_f010_i10_d020 1.0",
  "bbob-biobj-mixint_f010_i10_d040 1.0",
  "bbob-biobj-mixint_f010_i10_d080 1.0",
  "bbob-biobj-mixint_f010_i10_d160 1.0",
  "bbob-biobj-mixint_f010_i11_d005 1.0",
  "bbob-biobj-mixint_f010_i11_d010 1.0",
  "bbob-biobj-mixint_f010_i11_d020 1.0",
  "bbob-biobj-mixint_f010_i11_d040 1.0",
  "bbob-biobj-mixint_f010_i11_d080 1.0",
  "bbob-biobj-mixint_f010_i11_d160 1.0",
  "bbob-biobj-mixint_f010_i12_d005 1.0",
  "bbob-biobj-mixint_f010_i12_d010 1.0",
  "bbob-biobj-mixint_f010_i12_d020 1.0",
  "bbob-biobj-mixint_f010_i12_d040 1.0",
  "bbob-biobj-mixint_f010_i12_d080 1.0",
  "bbob-biobj-mixint_f010_i12_d160 1.0",
  "bbob-biobj-mixint_f010_i13_d005 1.0",
  "bbob-biobj-mixint_f010_i13_d010 1.0",
  "bbob-biobj-mixint_f010_i13_d020 1.0",
  "bbob-biobj-mixint_f010_i13_d040 1.0",
  "bbob-biobj-mixint_f010_i13_d080 1.0",
  "bbob-biobj-mixint_f010_i13_d160 1.0",
  "bbob-biobj-mixint_f010_i14_d005 1.0",
  "bbob-biobj-mixint_f010_i14_d010 1.0",
  "bbob-biobj-mixint_f010_i14_d020 1.0",
  "bbob-biobj-mixint_f010_i14_d040 1.0",
  "bbob-biobj-mixint_f010_i14_d080 1.0",
  "bbob-biobj-mixint_f010_i14_d160 1.0",
  "bbob-biobj-mixint_f010_i15_d005 1.0",
  "bbob-biobj-mixint_f010_i15_d010 1.0",
  "bbob-biobj-mixint_f010_i15_d020 1.0",
  "bbob-biobj-mixint_f010_i15_d040 1.0",
  "bbob-biobj-mixint_f010_i15_d080 1.0",
  "bbob-biobj-mixint_f010_i15_d160 1.0",
  "bbob-biobj-mixint_f011_i01_d005 1.0",
  "bbob-biobj-mixint_f011_i01_d010 1.0",
  "bbob-biobj-mixint_f011_i01_d020 1.0",
  "bbob-biobj-mixint_f011_i01_d040 1.0",
  "bbob-biobj-mixint_f011_i01_d080 1.0",
  "bbob-biobj-mixint_f011_i01_d160 1.0",
  "bbob-biobj-mixint_f011_i02_d005 1.0",
  "bbob-biobj-mixint_f011_i02_d010 1.0",
  "bbob-biobj-mixint_f011_i02_d020 1.0",
  "bbob-biobj-mixint_f011_i02_d040 1.0",
  "bbob-biobj-mixint_f011_i02_d080 1.0",
  "bbob-biobj-mixint_f011_i02_d160 1.0",
  "bbob-biobj-mixint_f011_i03_d005 1.0",
  "bbob-biobj-mixint_f011_i03_d010 1.0",
  "bbob-biobj-mixint_f011_i03_d020 1.0",
  "bbob-biobj-mixint_f011_i03_d040 1.0",
  "bbob-biobj-mixint_f011_i03_d080 1.0",
  "bbob-biobj-mixint_f011_i03_d160 1.0",
  "bbob-biobj-mixint_f011_i04_d005 1.0",
  "bbob-biobj-mixint_f011_i04_d010 1.0",
  "bbob-biobj-mixint_f011_i04_d020 1.0",
  "bbob-biobj-mixint_f011_i04_d040 1.0",
  "bbob-biobj-mixint_f011_i04_d080 1.0",
  "bbob-biobj-mixint_f011_i04_d160 1.0",
  "bbob-biobj-mixint_f011_i05_d005 1.0",
  "bbob-biobj-mixint_f011_i05_d010 1.0",
  "bbob-biobj-mixint_f011_i05_d020 1.0",
  "bbob-biobj-mixint_f011_i05_d040 1.0",
  "bbob-biobj-mixint_f011_i05_d080 1.0",
  "bbob-biobj-mixint_f011_i05_d160 1.0",
  "bbob-biobj-mixint_f011_i06_d005 1.0",
  "bbob-biobj-mixint_f011_i06_d010 1.0",
  "bbob-biobj-mixint_f011_i06_d020 1.0",
  "bbob-biobj-mixint_f011_i06_d040 1.0",
  "bbob-biobj-mixint_f011_i06_d080 1.0",
  "bbob-biobj-mixint_f011_i06_d160 1.0",
  "bbob-biobj-mixint_f011_i07_d005 1.0",
  "bbob-biobj-mixint_f011_i07_d010 1.0",
  "bbob-biobj-mixint_f011_i07_d020 1.0",
  "bbob-biobj-mixint_f011_i07_d040 1.0",
  "bbob-biobj-mixint_f011_i07_d080 1.0",
  "bbob-biobj-mixint_f011_i07_d160 1.0",
  "bbob-biobj-mixint_f011_i08_d005 1.0",
  "bbob-biobj-mixint_f011_i08_d010 1.0",
  "bbob-biobj-mixint_f011_i08_d020 1.0",
  "bbob-biobj-mixint_f011_i08_d040 1.0",
  "bbob-biobj-mixint_f011_i08_d080 1.0",
  "bbob-biobj-mixint_f011_i08_d160 1.0",
  "bbob-biobj-mixint_f011_i09_d005 1.0",
  "bbob-biobj-mixint_f011_i09_d010 1.0",
  "bbob-biobj-mixint_f011_i09_d020 1.0",
  "bbob-biobj-mixint_f011_i09_d040 1.0",
  "bbob-biobj-mixint_f011_i09_d080 1.0",
  "bbob-biobj-mixint_f011_i09_d160 1.0",
  "bbob-biobj-mixint_f011_i10_d005 1.0",
  "bbob-biobj-mixint_f011_i10_d010 1.0",
  "bbob-biobj-mixint_f011_i10_d020 1.0",
  "bbob-biobj-mixint_f011_i10_d040 1.0",
  "bbob-biobj-mixint_f011_i10_d080 1.0",
  "bbob-biobj-mixint_f011_i10_d160 1.0",
  "bbob-biobj-mixint_f011_i11_d005 1.0",
  "bbob-biobj-mixint_f011_i11_d010 1.0",
  "bbob-biobj-mixint_f011_i11_d020 1.0",
  "bbob-biobj-mixint_f011_i11_d040 1.0",
  "bbob-biobj-mixint_f011_i11_d080 1.0",
  "bbob-biobj-mixint_f011_i11_d160 1.0",
  "bbob-biobj-mixint_f011_i12_d005 1.0",
  "bbob-biobj-mixint_f011_i12_d010 1.0",
  "bbob-biobj-mixint_f011_i12_d020 1.0",
  "bbob-biobj-mixint_f011_i12_d040 1.0",
  "bbob-biobj-mixint_f011_i12_d080 1.0",
  "bbob-biobj-mixint_f011_i12_d160 1.0",
  "bbob-biobj-mixint_f011_i13_d005 1.0",
  "bbob-biobj-mixint_f011_i13_d010 1.0",
  "bbob-biobj-mixint_f011_i13_d020 1.0",
  "bbob-biobj-mixint_f011_i13_d040 1.0",
  "bbob-biobj-mixint_f011_i13_d080 1.0",
  "bbob-biobj-mixint_f011_i13_d160 1.0",
  "bbob-biobj-mixint_f011_i14_d005 1.0",
  "bbob-biobj-mixint_f011_i14_d010 1.0",
  "bbob-biobj-mixint_f011_i14_d020 1.0",
  "bbob-biobj-mixint_f011_i14_d040 1.0",
  "bbob-biobj-mixint_f011_i14_d080 1.0",
  "bbob-biobj-mixint_f011_i14_d160 1.0",
  "bbob-biobj-mixint_f011_i15_d005 1.0",
  "bbob-biobj-mixint_f011_i15_d010 1.0",
  "bbob-biobj-mixint_f011_i15_d020 1.0",
  "bbob-biobj-mixint_f011_i15_d040 1.0",
  "bbob-biobj-mixint_f011_i15_d080 1.0",
  "bbob-biobj-mixint_f011_i15_d160 1.0",
  "bbob-biobj-mixint_f012_i01_d005 1.0",
  "bbob-biobj-mixint_f012_i01_d010 1.0",
  "bbob-biobj-mixint_f012_i01_d020 1.0",
  "bbob-biobj-mixint_f012_i01_d040 1.0",
  "bbob-biobj-mixint_f012_i01_d080 1.0",
  "bbob-biobj-mixint_f012_i01_d160 1.0",
  "bbob-biobj-mixint_f012_i02_d005 1.0",
  "bbob-biobj-mixint_f012_i02_d010 1.0",
  "bbob-biobj-mixint_f012_i02_d020 1.0",
  "bbob-biobj-mixint_f012_i02_d040 1.0",
  "bbob-biobj-mixint_f012_i02_d080 1.0",
  "bbob-biobj-mixint_f012_i02_d160 1.0",
  "bbob-biobj-mixint_f012_i03_d005 1.0",
  "bbob-biobj-mixint_f012_i03_d010 1.0",
  "bbob-biobj-mixint_f012_i03_d020 1.0",
  "bbob-biobj-mixint_f012_i03_d040 1.0",
  "bbob-biobj-mixint_f012_i03_d080 1.0",
  "bbob-biobj-mixint_f012_i03_d160 1.0",
  "bbob-biobj-mixint_f012_i04_d005 1.0",
  "bbob-biobj-mixint_f012_i04_d010 1.0",
  "bbob-biobj-mixint_f012_i04_d020 1.0",
  "bbob-biobj-mixint_f012_i04_d040 1.0",
  "bbob-biobj-mixint_f012_i04_d080 1.0",
  "bbob-biobj-mixint_f012_i04_d160 1.0",
  "bbob-biobj-mixint_f012_i05_d005 1.0",
  "bbob-biobj-mixint_f012_i05_d010 1.0",
  "bbob-biobj-mixint_f012_i05_d020 1.0",
  "bbob-biobj-mixint_f012_i05_d040 1.0",
  "bbob-biobj-mixint_f012_i05_d080 1.0",
  "bbob-biobj-mixint_f012_i05_d160 1.0",
  "bbob-biobj-mixint_f012_i06_d005 1.0",
  "bbob-biobj-mixint_f012_i06_d010 1.0",
  "bbob-biobj-mixint_f012_i06_d020 1.0",
  "bbob-biobj-mixint_f012_i06_d040 1.0",
  "bbob-biobj-mixint_f012_i06_d080 1.0",
  "bbob-biobj-mixint_f012_i06_d160 1.0",
  "bbob-biobj-mixint_f012_i07_d005 1.0",
  "bbob-biobj-mixint_f012_i07_d010 1.0",
  "bbob-biobj-mixint_f012_i07_d020 1.0",
  "bbob-biobj-mixint_f012_i07_d040 1.0",
  "bbob-biobj-mixint_f012_i07_d080 1.0",
  "bbob-biobj-mixint_f012_i07_d160 1.0",
  "bbob-biobj-mixint_f012_i08_d005 1.0",
  "bbob-biobj-mixint_f012_i08_d010 1.0",
  "bbob-biobj-mixint_f012_i08_d020 1.0",
  "bbob-biobj-mixint_f012_i08_d040 1.0",
  "bbob-biobj-mixint_f012_i08_d080 1.0",
  "bbob-biobj-mixint_f012_i08_d160 1.0",
  "bbob-biobj-mixint_f012_i09_d005 1.0",
  "bbob-biobj-mixint_f012_i09_d010 1.0",
  "bbob-biobj-mixint_f012_i09_d020 1.0",
  "bbob-biobj-mixint_f012_i09_d040 1.0",
  "bbob-biobj-mixint_f012_i09_d080 1.0",
  "bbob-biobj-mixint_f012_i09_d160 1.0",
  "bbob-biobj-mixint_f012_i10_d005 1.0",
  "bbob-biobj-mixint_f012_i10_d010 1.0",
  "bbob-biobj-mixint_f012_i10_d020 1.0",
  "bbob-biobj-mixint_f012_i10_d040 1.0",
  "bbob-biobj-mixint_f012_i10_d080 1.0",
  "bbob-biobj-mixint_f012_i10_d160 1.0",
  "bbob-biobj-mixint_f012_i11_d005 1.0",
  "bbob-biobj-mixint_f012_i11_d010 1.0",
  "bbob-biobj-mixint_f012_i11_d020 1.0",
  "bbob-biobj-mixint_f012_i11_d040 1.0",
  "bbob-biobj-mixint_f012_i11_d080 1.0",
  "bbob-biobj-mixint_f012_i11_d160 1.0",
  "bbob-biobj-mixint_f012_i12_d005 1.0",
  "bbob-biobj-mixint_f012_i12_d010 1.0",
  "bbob-biobj-mixint_f012_i12_d020 1.0",
  "bbob-biobj-mixint_f012_i12_d040 1.0",
  "bbob-biobj-mixint_f012_i12_d080 1.0",
  "bbob-biobj-mixint_f012_i12_d160 1.0",
  "bbob-biobj-mixint_f012_i13_d005 1.0",
  "bbob-biobj-mixint_f012_i13_d010 1.0",
  "bbob-biobj-mixint_f012_i13_d020 1.0",
  "bbob-biobj-mixint_f012_i13_d040 1.0",
  "bbob-biobj-mixint_f012_i13_d080 1.0",
  "bbob-biobj-mixint_f012_i13_d160 1.0",
  "bbob-biobj-mixint_f012_i14_d005 1.0",
  "bbob-biobj-mixint_f012_i14_d010 1.0",
  "bbob-biobj-mixint_f012_i14_d020 1.0",
  "bbob-biobj-mixint_f012_i14_d040 1.0",
  "bbob-biobj-mixint_f012_i14_d080 1.0",
  "bbob-biobj-mixint_f012_i14_d160 1.0",
  "bbob-biobj-mixint_f012_i15_d005 1.0",
  "bbob-biobj-mixint_f012_i15_d010 1.0",
  "bbob-biobj-mixint_f012_i15_d020 1.0",
  "bbob-biobj-mixint_f012_i15_d040 1.0",
  "bbob-biobj-mixint_f012_i15_d080 1.0",
  "bbob-biobj-mixint_f012_i15_d160 1.0",
  "bbob-biobj-mixint_f013_i01_d005 1.0",
  "bbob-biobj-mixint_f013_i01_d010 1.0",
  "bbob-biobj-mixint_f013_i01_d020 1.0",
  "bbob-biobj-mixint_f013_i01_d040 1.0",
  "bbob-biobj-mixint_f013_i01_d080 1.0",
  "bbob-biobj-mixint_f013_i01_d160 1.0",
  "bbob-biobj-mixint_f013_i02_d005 1.0",
  "bbob-biobj-mixint_f013_i02_d010 1.0",
  "bbob-biobj-mixint_f013_i02_d020 1.0",
  "bbob-biobj-mixint_f013_i02_d040 1.0",
  "bbob-biobj-mixint_f013_i02_d080 1.0",
  "bbob-biobj-mixint_f013_i02_d160 1.0",
  "bbob-biobj-mixint_f013_i03_d005 1.0",
  "bbob-biobj-mixint_f013_i03_d010 1.0",
  "bbob-biobj-mixint_f013_i03_d020 1.0",
  "bbob-biobj-mixint_f013_i03_d040 1.0",
  "bbob-biobj-mixint_f013_i03_d080 1.0",
  "bbob-biobj-mixint_f013_i03_d160 1.0",
  "bbob-biobj-mixint_f013_i04_d005 1.0",
  "bbob-biobj-mixint_f013_i04_d010 1.0",
  "bbob-biobj-mixint_f013_i04_d020 1.0",
  "bbob-biobj-mixint_f013_i04_d040 1.0",
  "bbob-biobj-mixint_f013_i04_d080 1.0",
  "bbob-biobj-mixint_f013_i04_d160 1.0",
  "bbob-biobj-mixint_f013_i05_d005 1.0",
  "bbob-biobj-mixint_f013_i05_d010 1.0",
  "bbob-biobj-mixint_f013_i05_d020 1.0",
  "bbob-biobj-mixint_f013_i05_d040 1.0",
  "bbob-biobj-mixint_f013_i05_d080 1.0",
  "bbob-biobj-mixint_f013_i05_d160 1.0",
  "bbob-biobj-mixint_f013_i06_d005 1.0",
  "bbob-biobj-mixint_f013_i06_d010 1.0",
  "bbob-biobj-mixint_f013_i06_d020 1.0",
  "bbob-biobj-mixint_f013_i06_d040 1.0",
  "bbob-biobj-mixint_f013_i06_d080 1.0",
  "bbob-biobj-mixint_f013_i06_d160 1.0",
  "bbob-biobj-mixint_f013_i07_d005 1.0",
  "bbob-biobj-mixint_f013_i07_d010 1.0",
  "bbob-biobj-mixint_f013_i07_d020 1.0",
  "bbob-biobj-mixint_f013_i07_d040 1.0",
  "bbob-biobj-mixint_f013_i07_d080 1.0",
  "bbob-biobj-mixint_f013_i07_d160 1.0",
  "bbob-biobj-mixint_f013_i08_d005 1.0",
  "bbob-biobj-mixint_f013_i08_d010 1.0",
  "bbob-biobj-mixint_f013_i08_d020 1.0",
  "bbob-biobj-mixint_f013_i08_d040 1.0",
  "bbob-biobj-mixint_f013_i08_d080 1.0",
  "bbob-biobj-mixint_f013_i08_d160 1.0",
  "bbob-biobj-mixint_f013_i09_d005 1.0",
  "bbob-biobj-mixint_f013_i09_d010 1.0",
  "bbob-biobj-mixint_f013_i09_d020 1.0",
  "bbob-biobj-mixint_f013_i09_d040 1.0",
  "bbob-biobj-mixint_f013_i09_d080 1.0",
  "bbob-biobj-mixint_f013_i09_d160 1.0",
  "bbob-biobj-mixint_f013_i10_d005 1.0",
  "bbob-biobj-mixint_f013_i10_d010 1.0",
  "bbob-biobj-mixint_f013_i10_d020 1.0",
  "bbob-biobj-mixint_f013_i10_d040 1.0",
  "bbob-biobj-mixint_f013_i10_d080 1.0",
  "bbob-biobj-mixint_f013_i10_d160 1.0",
  "bbob-biobj-mixint_f013_i11_d005 1.0",
  "bbob-biobj-mixint_f013_i11_d010 1.0",
  "bbob-biobj-mixint_f013_i11_d020 1.0",
  "bbob-biobj-mixint_f013_i11_d040 1.0",
  "bbob-biobj-mixint_f013_i11_d080 1.0",
  "bbob-biobj-mixint_f013_i11_d160 1.0",
  "bbob-biobj-mixint_f013_i12_d005 1.0",
  "bbob-biobj-mixint_f013_i12_d010 1.0",
  "bbob-biobj-mixint_f013_i12_d020 1.0",
  "bbob-biobj-mixint_f013_i12_d040 1.0",
  "bbob-biobj-mixint_f013_i12_d080 1.0",
  "bbob-biobj-mixint_f013_i12_d160 1.0",
  "bbob-biobj-mixint_f013_i13_d005 1.0",
  "bbob-biobj-mixint_f013_i13_d010 1.0",
  "bbob-biobj-mixint_f013_i13_d020 1.0",
  "bbob-biobj-mixint_f013_i13_d040 1.0",
  "bbob-biobj-mixint_f013_i13_d080 1.0",
  "bbob-biobj-mixint_f013_i13_d160 1.0",
  "bbob-biobj-mixint_f013_i14_d005 1.0",
  "bbob-biobj-mixint_f013_i14_d010 1.0",
  "bbob-biobj-mixint_f013_i14_d020 1.0",
  "bbob-biobj-mixint_f013_i14_d040 1.0",
  "bbob-biobj-mixint_f013_i14_d080 1.0",
  "bbob-biobj-mixint_f013_i14_d160 1.0",
  "bbob-biobj-mixint_f013_i15_d005 1.0",
  "bbob-biobj-mixint_f013_i15_d010 1.0",
  "bbob-biobj-mixint_f013_i15_d020 1.0",
  "bbob-biobj-mixint_f013_i15_d040 1.0",
  "bbob-biobj-mixint_f013_i15_d080 1.0",
  "bbob-biobj-mixint_f013_i15_d160 1.0",
  "bbob-biobj-mixint_f014_i01_d005 1.0",
  "bbob-biobj-mixint_f014_i01_d010 1.0",
  "bbob-biobj-mixint_f014_i01_d020 1.0",
  "bbob-biobj-mixint_f014_i01_d040 1.0",
  "bbob-biobj-mixint_f014_i01_d080 1.0",
  "bbob-biobj-mixint_f014_i01_d160 1.0",
  "bbob-biobj-mixint_f014_i02_d005 1.0",
  "bbob-biobj-mixint_f014_i02_d010 1.0",
  "bbob-biobj-mixint_f014_i02_d020 1.0",
  "bbob-biobj-mixint_f014_i02_d040 1.0",
  "bbob-biobj-mixint_f014_i02_d080 1.0",
  "bbob-biobj-mixint_f014_i02_d160 1.0",
  "bbob-biobj-mixint_f014_i03_d005 1.0",
  "bbob-biobj-mixint_f014_i03_d010 1.0",
  "bbob-biobj-mixint_f014_i03_d020 1.0",
  "bbob-biobj-mixint_f014_i03_d040 1.0",
  "bbob-biobj-mixint_f014_i03_d080 1.0",
  "bbob-biobj-mixint_f014_i03_d160 1.0",
  "bbob-biobj-mixint_f014_i04_d005 1.0",
  "bbob-biobj-mixint_f014_i04_d010 1.0",
  "bbob-biobj-mixint_f014_i04_d020 1.0",
  "bbob-biobj-mixint_f014_i04_d040 1.0",
  "bbob-biobj-mixint_f014_i04_d080 1.0",
  "bbob-biobj-mixint_f014_i04_d160 1.0",
  "bbob-biobj-mixint_f014_i05_d005 1.0",
  "bbob-biobj-mixint_f014_i05_d010 1.0",
  "bbob-biobj-mixint_f014_i05_d020 1.0",
  "bbob-biobj-mixint_f014_i05_d040 1.0",
  "bbob-biobj-mixint_f014_i05_d080 1.0",
  "bbob-biobj-mixint_f014_i05_d160 1.0",
  "bbob-biobj-mixint_f014_i06_d005 1.0",
  "bbob-biobj-mixint_f014_i06_d010 1.0",
  "bbob-biobj-mixint_f014_i06_d020 1.0",
  "bbob-biobj-mixint_f014_i06_d040 1.0",
  "bbob-biobj-mixint_f014_i06_d080 1.0",
  "bbob-biobj-mixint_f014_i06_d160 1.0",
  "bbob-biobj-mixint_f014_i07_d005 1.0",
  "bbob-biobj-mixint_f014_i07_d010 1.0",
  "bbob-biobj-mixint_f014_i07_d020 1.0",
  "bbob-biobj-mixint_f014_i07_d040 1.0",
  "bbob-biobj-mixint_f014_i07_d080 1.0",
  "bbob-biobj-mixint_f014_i07_d160 1.0",
  "bbob-biobj-mixint_f014_i08_d005 1.0",
  "bbob-biobj-mixint_f014_i08_d010 1.0",
  "bbob-biobj-mixint_f014_i08_d020 1.0",
  "bbob-biobj-mixint_f014_i08_d040 1.0",
  "bbob-biobj-mixint_f014_i08_d080 1.0",
  "bbob-biobj-mixint_f014_i08_d160 1.0",
  "bbob-biobj-mixint_f014_i09_d005 1.0",
  "bbob-biobj-mixint_f014_i09_d010 1.0",
  "bbob-biobj-mixint_f014_i09_d020 1.0",
  "bbob-biobj-mixint_f014_i09_d040 1.0",
  "bbob-biobj-mixint_f014_i09_d080 1.0",
  "bbob-biobj-mixint_f014_i09_d160 1.0",
  "bbob-biobj-mixint_f014_i10_d005 1.0",
  "bbob-biobj-mixint_f014_i10_d010 1.0",
  "bbob-biobj-mixint_f014_i10_d020 1.0",
  "bbob-biobj-mixint_f014_i10_d040 1.0",
  "bbob-biobj-mixint_f014_i10_d080 1.0",
  "bbob-biobj-mixint_f014_i10_d160 1.0",
  "bbob-biobj-mixint_f014_i11_d005 1.0",
  "bbob-biobj-mixint_f014_i11_d010 1.0",
  "bbob-biobj-mixint_f014_i11_d020 1.0",
  "bbob-biobj-mixint_f014_i11_d040 1.0",
  "bbob-biobj-mixint_f014_i11_d080 1.0",
  "bbob-biobj-mixint_f014_i11_d160 1.0",
  "bbob-biobj-mixint_f014_i12_d005 1.0",
  "bbob-biobj-mixint_f014_i12_d010 1.0",
  "bbob-biobj-mixint_f014_i12_d020 1.0",
  "bbob-biobj-mixint_f014_i12_d040 1.0",
  "bbob-biobj-mixint_f014_i12_d080 1.0",
  "bbob-biobj-mixint_f014_i12_d160 1.0",
  "bbob-biobj-mixint_f014_i13_d005 1.0",
  "bbob-biobj-mixint_f014_i13_d010 1.0",
  "bbob-biobj-mixint_f014_i13_d020 1.0",
  "bbob-biobj-mixint_f014_i13_d040 1.0",
  "bbob-biobj-mixint_f014_i13_d080 1.0",
  "bbob-biobj-mixint_f014_i13_d160 1.0",
  "bbob-biobj-mixint_f014_i14_d005 1.0",
  "bbob-biobj-mixint_f014_i14_d010 1.0",
  "bbob-biobj-mixint_f014_i14_d020 1.0",
  "bbob-biobj-mixint_f014_i14_d040 1.0",
  "bbob-biobj-mixint_f014_i14_d080 1.0",
  "bbob-biobj-mixint_f014_i14_d160 1.0",
  "bbob-biobj-mixint_f014_i15_d005 1.0",
  "bbob-biobj-mixint_f014_i15_d010 1.0",
  "bbob-biobj-mixint_f014_i15_d020 1.0",
  "bbob-biobj-mixint_f014_i15_d040 1.0",
  "bbob-biobj-mixint_f014_i15_d080 1.0",
  "bbob-biobj-mixint_f014_i15_d160 1.0",
  "bbob-biobj-mixint_f015_i01_d005 1.0",
  "bbob-biobj-mixint_f015_i01_d010 1.0",
  "bbob-biobj-mixint_f015_i01_d020 1.0",
  "bbob-biobj-mixint_f015_i01_d040 1.0",
  "bbob-biobj-mixint_f015_i01_d080 1.0",
  "bbob-biobj-mixint_f015_i01_d160 1.0",
  "bbob-biobj-mixint_f015_i02_d005 1.0",
  "bbob-biobj-mixint_f015_i02_d010 1.0",
  "bbob-biobj-mixint_f015_i02_d020 1.0",
  "bbob-biobj-mixint_f015_i02_d040 1.0",
  "bbob-biobj-mixint_f015_i02_d080 1.0",
  "bbob-biobj-mixint_f015_i02_d160 1.0",
  "bbob-biobj-mixint_f015_i03_d005 1.0",
  "bbob-biobj-mixint_f015_i03_d010 1.0",
  "bbob-biobj-mixint_f015_i03_d020 1.0",
  "bbob-biobj-mixint_f015_i03_d040 1.0",
  "bbob-biobj-mixint_f015_i03_d080 1.0",
  "bbob-biobj-mixint_f015_i03_d160 1.0",
  "bbob-biobj-mixint_f015_i04_d005 1.0",
  "bbob-biobj-mixint_f015_i04_d010 1.0",
  "bbob-biobj-mixint_f015_i04_d020 1.0",
  "bbob-biobj-mixint_f015_i04_d040 1.0",
  "bbob-biobj-mixint_f015_i04_d080 1.0",
  "bbob-biobj-mixint_f015_i04_d160 1.0",
  "bbob-biobj-mixint_f015_i05_d005 1.0",
  "bbob-biobj-mixint_f015_i05_d010 1.0",
  "bbob-biobj-mixint_f015_i05_d020 1.0",
  "bbob-biobj-mixint_f015_i05_d040 1.0",
  "bbob-biobj-mixint_f015_i05_d080 1.0",
  "bbob-biobj-mixint_f015_i05_d160 1.0",
  "bbob-biobj-mixint_f015_i06_d005 1.0",
  "bbob-biobj-mixint_f015_i06_d010 1.0",
  "bbob-biobj-mixint_f015_i06_d020 1.0",
  "bbob-biobj-mixint_f015_i06_d040 1.0",
  "bbob-biobj-mixint_f015_i06_d080 1.0",
  "bbob-biobj-mixint_f015_i06_d160 1.0",
  "bbob-biobj-mixint_f015_i07_d005 1.0",
  "bbob-biobj-mixint_f015_i07_d010 1.0",
  "bbob-biobj-mixint_f015_i07_d020 1.0",
  "bbob-biobj-mixint_f015_i07_d040 1.0",
  "bbob-biobj-mixint_f015_i07_d080 1.0",
  "bbob-biobj-mixint_f015_i07_d160 1.0",
  "bbob-biobj-mixint_f015_i08_d005 1.0",
  "bbob-biobj-mixint_f015_i08_d010 1.0",
  "bbob-biobj-mixint_f015_i08_d020 1.0",
  "bbob-biobj-mixint_f015_i08_d040 1.0",
  "bbob-biobj-mixint_f015_i08_d080 1.0",
  "bbob-biobj-mixint_f015_i08_d160 1.0",
  "bbob-biobj-mixint_f015_i09_d005 1.0",
  "bbob-biobj-mixint_f015_i09_d010 1.0",
  "bbob-biobj-mixint_f015_i09_d020 1.0",
  "bbob-biobj-mixint_f015_i09_d040 1.0",
  "bbob-biobj-mixint_f015_i09_d080 1.0",
  "bbob-biobj-mixint_f015_i09_d160 1.0",
  "bbob-biobj-mixint_f015_i10_d005 1.0",
  "bbob-biobj-mixint_f015_i10_d010 1.0",
  "bbob-biobj-mixint_f015_i10_d020 1.0",
  "bbob-biobj-mixint_f015_i10_d040 1.0",
  "bbob-biobj-mixint_f015_i10_d080 1.0",
  "bbob-biobj-mixint_f015_i10_d160 1.0",
  "bbob-biobj-mixint_f015_i11_d005 1.0",
  "bbob-biobj-mixint_f015_i11_d010 1.0",
  "bbob-biobj-mixint_f015_i11_d020 1.0",
  "bbob-biobj-mixint_f015_i11_d040 1.0",
  "bbob-biobj-mixint_f015_i11_d080 1.0",
  "bbob-biobj-mixint_f015_i11_d160 1.0",
  "bbob-biobj-mixint_f015_i12_d005 1.0",
  "bbob-biobj-mixint_f015_i12_d010 1.0",
  "bbob-biobj-mixint_f015_i12_d020 1.0",
  "bbob-biobj-mixint_f015_i12_d040 1.0",
  "bbob-biobj-mixint_f015_i12_d080 1.0",
  "bbob-biobj-mixint_f015_i12_d160 1.0",
  "bbob-biobj-mixint_f015_i13_d005 1.0",
  "bbob-biobj-mixint_f015_i13_d010 1.0",
  "bbob-biobj-mixint_f015_i13_d020 1.0",
  "bbob-biobj-mixint_f015_i13_d040 1.0",
  "bbob-biobj-mixint_f015_i13_d080 1.0",
  "bbob-biobj-mixint_f015_i13_d160 1.0",
  "bbob-biobj-mixint_f015_i14_d005 1.0",
  "bbob-biobj-mixint_f015_i14_d010 1.0",
  "bbob-biobj-mixint_f015_i14_d020 1.0",
  "bbob-biobj-mixint_f015_i14_d040 1.0",
  "bbob-biobj-mixint_f015_i14_d080 1.0",
  "bbob-biobj-mixint_f015_i14_d160 1.0",
  "bbob-biobj-mixint_f015_i15_d005 1.0",
  "bbob-biobj-mixint_f015_i15_d010 1.0",
  "bbob-biobj-mixint_f015_i15_d020 1.0",
  "bbob-biobj-mixint_f015_i15_d040 1.0",
  "bbob-biobj-mixint_f015_i15_d080 1.0",
  "bbob-biobj-mixint_f015_i15_d160 1.0",
  "bbob-biobj-mixint_f016_i01_d005 1.0",
  "bbob-biobj-mixint_f016_i01_d010 1.0",
  "bbob-biobj-mixint_f016_i01_d020 1.0",
  "bbob-biobj-mixint_f016_i01_d040 1.0",
  "bbob-biobj-mixint_f016_i01_d080 1.0",
  "bbob-biobj-mixint_f016_i01_d160 1.0",
  "bbob-biobj-mixint_f016_i02_d005 1.0",
  "bbob-biobj-mixint_f016_i02_d010 1.0",
  "bbob-biobj-mixint_f016_i02_d020 1.0",
  "bbob-biobj-mixint_f016_i02_d040 1.0",
  "bbob-biobj-mixint_f016_i02_d080 1.0",
  "bbob-biobj-mixint_f016_i02_d160 1.0",
  "bbob-biobj-mixint_f016_i03_d005 1.0",
  "bbob-biobj-mixint_f016_i03_d010 1.0",
  "bbob-biobj-mixint_f016_i03_d020 1.0",
  "bbob-biobj-mixint_f016_i03_d040 1.0",
  "bbob-biobj-mixint_f016_i03_d080 1.0",
  "bbob-biobj-mixint_f016_i03_d160 1.0",
  "bbob-biobj-mixint_f016_i04_d005 1.0",
  "bbob-biobj-mixint_f016_i04_d010 1.0",
  "bbob-biobj-mixint_f016_i04_d020 1.0",
  "bbob-biobj-mixint_f016_i04_d040 1.0",
  "bbob-biobj-mixint_f016_i04_d080 1.0",
  "bbob-biobj-mixint_f016_i04_d160 1.0",
  "bbob-biobj-mixint_f016_i05_d005 1.0",
  "bbob-biobj-mixint_f016_i05_d010 1.0",
  "bbob-biobj-mixint_f016_i05_d020 1.0",
  "bbob-biobj-mixint_f016_i05_d040 1.0",
  "bbob-biobj-mixint_f016_i05_d080 1.0",
  "bbob-biobj-mixint_f016_i05_d160 1.0",
  "bbob-biobj-mixint_f016_i06_d005 1.0",
  "bbob-biobj-mixint_f016_i06_d010 1.0",
  "bbob-biobj-mixint_f016_i06_d020 1.0",
  "bbob-biobj-mixint_f016_i06_d040 1.0",
  "bbob-biobj-mixint_f016_i06_d080 1.0",
  "bbob-biobj-mixint_f016_i06_d160 1.0",
  "bbob-biobj-mixint_f016_i07_d005 1.0",
  "bbob-biobj-mixint_f016_i07_d010 1.0",
  "bbob-biobj-mixint_f016_i07_d020 1.0",
  "bbob-biobj-mixint_f016_i07_d040 1.0",
  "bbob-biobj-mixint_f016_i07_d080 1.0",
  "bbob-biobj-mixint_f016_i07_d160 1.0",
  "bbob-biobj-mixint_f016_i08_d005 1.0",
  "bbob-biobj-mixint_f016_i08_d010 1.0",
  "bbob-biobj-mixint_f016_i08_d020 1.0",
  "bbob-biobj-mixint_f016_i08_d040 1.0",
  "bbob-biobj-mixint_f016_i08_d080 1.0",
  "bbob-biobj-mixint_f016_i08_d160 1.0",
  "bbob-biobj-mixint_f016_i09_d005 1.0",
  "bbob-biobj-mixint_f016_i09_d010 1.0",
  "bbob-biobj-mixint_f016_i09_d020 1.0",
  "bbob-biobj-mixint_f016_i09_d040 1.0",
  "bbob-biobj-mixint_f016_i09_d080 1.0",
  "bbob-biobj-mixint_f016_i09_d160 1.0",
  "bbob-biobj-mixint_f016_i10_d005 1.0",
  "bbob-biobj-mixint_f016_i10_d010 1.0",
  "bbob-biobj-mixint_f016_i10_d020 1.0",
  "bbob-biobj-mixint_f016_i10_d040 1.0",
  "bbob-biobj-mixint_f016_i10_d080 1.0",
  "bbob-biobj-mixint_f016_i10_d160 1.0",
  "bbob-biobj-mixint_f016_i11_d005 1.0",
  "bbob-biobj-mixint_f016_i11_d010 1.0",
  "bbob-biobj-mixint_f016_i11_d020 1.0",
  "bbob-biobj-mixint_f016_i11_d040 1.0",
  "bbob-biobj-mixint_f016_i11_d080 1.0",
  "bbob-biobj-mixint_f016_i11_d160 1.0",
  "bbob-biobj-mixint_f016_i12_d005 1.0",
  "bbob-biobj-mixint_f016_i12_d010 1.0",
  "bbob-biobj-mixint_f016_i12_d020 1.0",
  "bbob-biobj-mixint_f016_i12_d040 1.0",
  "bbob-biobj-mixint_f016_i12_d080 1.0",
  "bbob-biobj-mixint_f016_i12_d160 1.0",
  "bbob-biobj-mixint_f016_i13_d005 1.0",
  "bbob-biobj-mixint_f016_i13_d010 1.0",
  "bbob-biobj-mixint_f016_i13_d020 1.0",
  "bbob-biobj-mixint_f016_i13_d040 1.0",
  "bbob-biobj-mixint_f016_i13_d080 1.0",
  "bbob-biobj-mixint_f016_i13_d160 1.0",
  "bbob-biobj-mixint_f016_i14_d005 1.0",
  "bbob-biobj-mixint_f016_i14_d010 1.0",
  "bbob-biobj-mixint_f016_i14_d020 1.0",
  "bbob-biobj-mixint_f016_i14_d040 1.0",
  "bbob-biobj-mixint_f016_i14_d080 1.0",
  "bbob-biobj-mixint_f016_i14_d160 1.0",
  "bbob-biobj-mixint_f016_i15_d005 1.0",
  "bbob-biobj-mixint_f016_i15_d010 1.0",
  "bbob-biobj-mixint_f016_i15_d020 1.0",
  "bbob-biobj-mixint_f016_i15_d040 1.0",
  "bbob-biobj-mixint_f016_i15_d080 1.0",
  "bbob-biobj-mixint_f016_i15_d160 1.0",
  "bbob-biobj-mixint_f017_i01_d005 1.0",
  "bbob-biobj-mixint_f017_i01_d010 1.0",
  "bbob-biobj-mixint_f017_i01_d020 1.0",
  "bbob-biobj-mixint_f017_i01_d040 1.0",
  "bbob-biobj-mixint_f017_i01_d080 1.0",
  "bbob-biobj-mixint_f017_i01_d160 1.0",
  "bbob-biobj-mixint_f017_i02_d005 1.0",
  "bbob-biobj-mixint_f017_i02_d010 1.0",
  "bbob-biobj-mixint_f017_i02_d020 1.0",
  "bbob-biobj-mixint_f017_i02_d040 1.0",
  "bbob-biobj-mixint_f017_i02_d080 1.0",
  "bbob-biobj-mixint_f017_i02_d160 1.0",
  "bbob-biobj-mixint_f017_i03_d005 1.0",
  "bbob-biobj-mixint_f017_i03_d010 1.0",
  "bbob-biobj-mixint_f017_i03_d020 1.0",
  "bbob-biobj-mixint_f017_i03_d040 1.0",
  "bbob-biobj-mixint_f017_i03_d080 1.0",
  "bbob-biobj-mixint_f017_i03_d160 1.0",
  "bbob-biobj-mixint_f017_i04_d005 1.0",
  "bbob-biobj-mixint_f017_i04_d010 1.0",
  "bbob-biobj-mixint_f017_i04_d020 1.0",
  "bbob-biobj-mixint_f017_i04_d040 1.0",
  "bbob-biobj-mixint_f017_i04_d080 1.0",
  "bbob-biobj-mixint_f017_i04_d160 1.0",
  "bbob-biobj-mixint_f017_i05_d005 1.0",
  "bbob-biobj-mixint_f017_i05_d010 1.0",
  "bbob-biobj-mixint_f017_i05_d020 1.0",
  "bbob-biobj-mixint_f017_i05_d040 1.0",
  "bbob-biobj-mixint_f017_i05_d080 1.0",
  "bbob-biobj-mixint_f017_i05_d160 1.0",
  "bbob-biobj-mixint_f017_i06_d005 1.0",
  "bbob-biobj-mixint_f017_i06_d010 1.0",
  "bbob-biobj-mixint_f017_i06_d020 1.0",
  "bbob-biobj-mixint_f017_i06_d040 1.0",
  "bbob-biobj-mixint_f017_i06_d080 1.0",
  "bbob-biobj-mixint_f017_i06_d160 1.0",
  "bbob-biobj-mixint_f017_i07_d005 1.0",
  "bbob-biobj-mixint_f017_i07_d010 1.0",
  "bbob-biobj-mixint_f017_i07_d020 1.0",
  "bbob-biobj-mixint_f017_i07_d040 1.0",
  "bbob-biobj-mixint_f017_i07_d080 1.0",
  "bbob-biobj-mixint_f017_i07_d160 1.0",
  "bbob-biobj-mixint_f017_i08_d005 1.0",
  "bbob-biobj-mixint_f017_i08_d010 1.0",
  "bbob-biobj-mixint_f017_i08_d020 1.0",
  "bbob-biobj-mixint_f017_i08_d040 1.0",
  "bbob-biobj-mixint_f017_i08_d080 1.0",
  "bbob-biobj-mixint_f017_i08_d160 1.0",
  "bbob-biobj-mixint_f017_i09_d005 1.0",
  "bbob-biobj-mixint_f017_i09_d010 1.0",
  "bbob-biobj-mixint_f017_i09_d020 1.0",
  "bbob-biobj-mixint_f017_i09_d040 1.0",
  "bbob-biobj-mixint_f017_i09_d080 1.0",
  "bbob-biobj-mixint_f017_i09_d160 1.0",
  "bbob-biobj-mixint_f017_i10_d005 1.0",
  "bbob-biobj-mixint_f017_i10_d010 1.0",
  "bbob-biobj-mixint_f017_i10_d020 1.0",
  "bbob-biobj-mixint_f017_i10_d040 1.0",
  "bbob-biobj-mixint_f017_i10_d080 1.0",
  "bbob-biobj-mixint_f017_i10_d160 1.0",
  "bbob-biobj-mixint_f017_i11_d005 1.0",
  "bbob-biobj-mixint_f017_i11_d010 1.0",
  "bbob-biobj-mixint_f017_i11_d020 1.0",
  "bbob-biobj-mixint_f017_i11_d040 1.0",
  "bbob-biobj-mixint_f017_i11_d080 1.0",
  "bbob-biobj-mixint_f017_i11_d160 1.0",
  "bbob-biobj-mixint_f017_i12_d005 1.0",
  "bbob-biobj-mixint_f017_i12_d010 1.0",
  "bbob-biobj-mixint_f017_i12_d020 1.0",
  "bbob-biobj-mixint_f017_i12_d040 1.0",
  "bbob-biobj-mixint_f017_i12_d080 1.0",
  "bbob-biobj-mixint_f017_i12_d160 1.0",
  "bbob-biobj-mixint_f017_i13_d005 1.0",
  "bbob-biobj-mixint_f017_i13_d010 1.0",
  "bbob-biobj-mixint_f017_i13_d020 1.0",
  "bbob-biobj-mixint_f017_i13_d040 1.0",
  "bbob-biobj-mixint_f017_i13_d080 1.0",
  "bbob-biobj-mixint_f017_i13_d160 1.0",
  "bbob-biobj-mixint_f017_i14_d005 1.0",
  "bbob-biobj-mixint_f017_i14_d010 1.0",
  "bbob-biobj-mixint_f017_i14_d020 1.0",
  "bbob-biobj-mixint_f017_i14_d040 1.0",
  "bbob-biobj-mixint_f017_i14_d080 1.0",
  "bbob-biobj-mixint_f017_i14_d160 1.0",
  "bbob-biobj-mixint_f017_i15_d005 1.0",
  "bbob-biobj-mixint_f017_i15_d010 1.0",
  "bbob-biobj-mixint_f017_i15_d020 1.0",
  "bbob-biobj-mixint_f017_i15_d040 1.0",
  "bbob-biobj-mixint_f017_i15_d080 1.0",
  "bbob-biobj-mixint_f017_i15_d160 1.0",
  "bbob-biobj-mixint_f018_i01_d005 1.0",
  "bbob-biobj-mixint_f018_i01_d010 1.0",
  "bbob-biobj-mixint_f018_i01_d020 1.0",
  "bbob-biobj-mixint_f018_i01_d040 1.0",
  "bbob-biobj-mixint_f018_i01_d080 1.0",
  "bbob-biobj-mixint_f018_i01_d160 1.0",
  "bbob-biobj-mixint_f018_i02_d005 1.0",
  "bbob-biobj-mixint_f018_i02_d010 1.0",
  "bbob-biobj-mixint_f018_i02_d020 1.0",
  "bbob-biobj-mixint_f018_i02_d040 1.0",
  "bbob-biobj-mixint_f018_i02_d080 1.0",
  "bbob-biobj-mixint_f018_i02_d160 1.0",
  "bbob-biobj-mixint_f018_i03_d005 1.0",
  "bbob-biobj-mixint_f018_i03_d010 1.0",
  "bbob-biobj-mixint_f018_i03_d020 1.0",
  "bbob-biobj-mixint_f018_i03_d040 1.0",
  "bbob-biobj-mixint_f018_i03_d080 1.0",
  "bbob-biobj-mixint_f018_i03_d160 1.0",
  "bbob-biobj-mixint_f018_i04_d005 1.0",
  "bbob-biobj-mixint_f018_i04_d010 1.0",
  "bbob-biobj-mixint_f018_i04_d020 1.0",
  "bbob-biobj-mixint_f018_i04_d040 1.0",
  "bbob-biobj-mixint_f018_i04_d080 1.0",
  "bbob-biobj-mixint_f018_i04_d160 1.0",
  "bbob-biobj-mixint_f018_i05_d005 1.0",
  "bbob-biobj-mixint_f018_i05_d010 1.0",
  "bbob-biobj-mixint_f018_i05_d020 1.0",
  "bbob-biobj-mixint_f018_i05_d040 1.0",
  "bbob-biobj-mixint_f018_i05_d080 1.0",
  "bbob-biobj-mixint_f018_i05_d160 1.0",
  "bbob-biobj-mixint_f018_i06_d005 1.0",
  "bbob-biobj-mixint_f018_i06_d010 1.0",
  "bbob-biobj-mixint_f018_i06_d020 1.0",
  "bbob-biobj-mixint_f018_i06_d040 1.0",
  "bbob-biobj-mixint_f018_i06_d080 1.0",
  "bbob-biobj-mixint_f018_i06_d160 1.0",
  "bbob-biobj-mixint_f018_i07_d005 1.0",
  "bbob-biobj-mixint_f018_i07_d010 1.0",
  "bbob-biobj-mixint_f018_i07_d020 1.0",
  "bbob-biobj-mixint_f018_i07_d040 1.0",
  "bbob-biobj-mixint_f018_i07_d080 1.0",
  "bbob-biobj-mixint_f018_i07_d160 1.0",
  "bbob-biobj-mixint_f018_i08_d005 1.0",
  "bbob-biobj-mixint_f018_i08_d010 1.0",
  "bbob-biobj-mixint_f018_i08_d020 1.0",
  "bbob-biobj-mixint_f018_i08_d040 1.0",
  "bbob-biobj-mixint_f018_i08_d080 1.0",
  "bbob-biobj-mixint_f018_i08_d160 1.0",
  "bbob-biobj-mixint_f018_i09_d005 1.0",
  "bbob-biobj-mixint_f018_i09_d010 1.0",
  "bbob-biobj-mixint_f018_i09_d020 1.0",
  "bbob-biobj-mixint_f018_i09_d040 1.0",
  "bbob-biobj-mixint_f018_i09_d080 1.0",
  "bbob-biobj-mixint_f018_i09_d160 1.0",
  "bbob-biobj-mixint_f018_i10_d005 1.0",
  "bbob-biobj-mixint_f018_i10_d010 1.0",
  "bbob-biobj-mixint_f018_i10_d020 1.0",
  "bbob-biobj-mixint_f018_i10_d040 1.0",
  "bbob-biobj-mixint_f018_i10_d080 1.0",
  "bbob-biobj-mixint_f018_i10_d160 1.0",
  "bbob-biobj-mixint_f018_i11_d005 1.0",
  "bbob-biobj-mixint_f018_i11_d010 1.0",
  "bbob-biobj-mixint_f018_i11_d020 1.0",
  "bbob-biobj-mixint_f018_i11_d040 1.0",
  "bbob-biobj-mixint_f018_i11_d080 1.0",
  "bbob-biobj-mixint_f018_i11_d160 1.0",
  "bbob-biobj-mixint_f018_i12_d005 1.0",
  "bbob-biobj-mixint_f018_i12_d010 1.0",
  "bbob-biobj-mixint_f018_i12_d020 1.0",
  "bbob-biobj-mixint_f018_i12_d040 1.0",
  "bbob-biobj-mixint_f018_i12_d080 1.0",
  "bbob-biobj-mixint_f018_i12_d160 1.0",
  "bbob-biobj-mixint_f018_i13_d005 1.0",
  "bbob-biobj-mixint_f018_i13_d010 1.0",
  "bbob-biobj-mixint_f018_i13_d020 1.0",
  "bbob-biobj-mixint_f018_i13_d040 1.0",
  "bbob-biobj-mixint_f018_i13_d080 1.0",
  "bbob-biobj-mixint_f018_i13_d160 1.0",
  "bbob-biobj-mixint_f018_i14_d005 1.0",
  "bbob-biobj-mixint_f018_i14_d010 1.0",
  "bbob-biobj-mixint_f018_i14_d020 1.0",
  "bbob-biobj-mixint_f018_i14_d040 1.0",
  "bbob-biobj-mixint_f018_i14_d080 1.0",
  "bbob-biobj-mixint_f018_i14_d160 1.0",
  "bbob-biobj-mixint_f018_i15_d005 1.0",
  "bbob-biobj-mixint_f018_i15_d010 1.0",
  "bbob-biobj-mixint_f018_i15_d020 1.0",
  "bbob-biobj-mixint_f018_i15_d040 1.0",
  "bbob-biobj-mixint_f018_i15_d080 1.0",
  "bbob-biobj-mixint_f018_i15_d160 1.0",
  "bbob-biobj-mixint_f019_i01_d005 1.0",
  "bbob-biobj-mixint_f019_i01_d010 1.0",
  "bbob-biobj-mixint_f019_i01_d020 1.0",
  "bbob-biobj-mixint_f019_i01_d040 1.0",
  "bbob-biobj-mixint_f019_i01_d080 1.0",
  "bbob-biobj-mixint_f019_i01_d160 1.0",
  "bbob-biobj-mixint_f019_i02_d005 1.0",
  "bbob-biobj-mixint_f019_i02_d010 1.0",
  "bbob-biobj-mixint_f019_i02_d020 1.0",
  "bbob-biobj-mixint_f019_i02_d040 1.0",
  "bbob-biobj-mixint_f019_i02_d080 1.0",
  "bbob-biobj-mixint_f019_i02_d160 1.0",
  "bbob-biobj-mixint_f019_i03_d005 1.0",
  "bbob-biobj-mixint_f019_i03_d010 1.0",
  "bbob-biobj-mixint_f019_i03_d020 1.0",
  "bbob-biobj-mixint_f019_i03_d040 1.0",
  "bbob-biobj-mixint_f019_i03_d080 1.0",
  "bbob-biobj-mixint_f019_i03_d160 1.0",
  "bbob-biobj-mixint_f019_i04_d005 1.0",
  "bbob-biobj-mixint_f019_i04_d010 1.0",
  "bbob-biobj-mixint_f019_i04_d020 1.0",
  "bbob-biobj-mixint_f019_i04_d040 1.0",
  "bbob-biobj-mixint_f019_i04_d080 1.0",
  "bbob-biobj-mixint_f019_i04_d160 1.0",
  "bbob-biobj-mixint_f019_i05_d005 1.0",
  "bbob-biobj-mixint_f019_i05_d010 1.0",
  "bbob-biobj-mixint_f019_i05_d020 1.0",
  "bbob-biobj-mixint_f019_i05_d040 1.0",
  "bbob-biobj-mixint_f019_i05_d080 1.0",
  "bbob-biobj-mixint_f019_i05_d160 1.0",
  "bbob-biobj-mixint_f019_i06_d005 1.0",
  "bbob-biobj-mixint_f019_i06_d010 1.0",
  "bbob-biobj-mixint_f019_i06_d020 1.0",
  "bbob-biobj-mixint_f019_i06_d040 1.0",
  "bbob-biobj-mixint_f019_i06_d080 1.0",
  "bbob-biobj-mixint_f019_i06_d160 1.0",
  "bbob-biobj-mixint_f019_i07_d005 1.0",
  "bbob-biobj-mixint_f019_i07_d010 1.0",
  "bbob-biobj-mixint_f019_i07_d020 1.0",
  "bbob-biobj-mixint_f019_i07_d040 1.0",
  "bbob-biobj-mixint_f019_i07_d080 1.0",
  "bbob-biobj-mixint_f019_i07_d160 1.0",
  "bbob-biobj-mixint_f019_i08_d005 1.0",
  "bbob-biobj-mixint_f019_i08_d010 1.0",
  "bbob-biobj-mixint_f019_i08_d020 1.0",
  "bbob-biobj-mixint_f019_i08_d040 1.0",
  "bbob-biobj-mixint_f019_i08_d080 1.0",
  "bbob-biobj-mixint_f019_i08_d160 1.0",
  "bbob-biobj-mixint_f019_i09_d005 1.0",
  "bbob-biobj-mixint_f019_i09_d010 1.0",
  "bbob-biobj-mixint_f019_i09_d020 1.0",
  "bbob-biobj-mixint_f019_i09_d040 1.0",
  "bbob-biobj-mixint_f019_i09_d080 1.0",
  "bbob-biobj-mixint_f019_i09_d160 1.0",
  "bbob-biobj-mixint_f019_i10_d005 1.0",
  "bbob-biobj-mixint_f019_i10_d010 1.0",
  "bbob-biobj-mixint_f019_i10_d020 1.0",
  "bbob-biobj-mixint_f019_i10_d040 1.0",
  "bbob-biobj-mixint_f019_i10_d080 1.0",
  "bbob-biobj-mixint_f019_i10_d160 1.0",
  "bbob-biobj-mixint_f019_i11_d005 1.0",
  "bbob-biobj-mixint_f019_i11_d010 1.0",
  "bbob-biobj-mixint_f019_i11_d020 1.0",
  "bbob-biobj-mixint_f019_i11_d040 1.0",
  "bbob-biobj-mixint_f019_i11_d080 1.0",
  "bbob-biobj-mixint_f019_i11_d160 1.0",
  "bbob-biobj-mixint_f019_i12_d005 1.0",
  "bbob-biobj-mixint_f019_i12_d010 1.0",
  "bbob-biobj-mixint_f019_i12_d020 1.0",
  "bbob-biobj-mixint_f019_i12_d040 1.0",
  "bbob-biobj-mixint_f019_i12_d080 1.0",
  "bbob-biobj-mixint_f019_i12_d160 1.0",
  "bbob-biobj-mixint_f019_i13_d005 1.0",
  "bbob-biobj-mixint_f019_i13_d010 1.0",
  "bbob-biobj-mixint_f019_i13_d020 1.0",
  "bbob-biobj-mixint_f019_i13_d040 1.0",
  "bbob-biobj-mixint_f019_i13_d080 1.0",
  "bbob-biobj-mixint_f019_i13_d160 1.0",
  "bbob-biobj-mixint_f019_i14_d005 1.0",
  "bbob-biobj-mixint_f019_i14_d010 1.0",
  "bbob-biobj-mixint_f019_i14_d020 1.0",
  "bbob-biobj-mixint_f019_i14_d040 1.0",
  "bbob-biobj-mixint_f019_i14_d080 1.0",
  "bbob-biobj-mixint_f019_i14_d160 1.0",
  "bbob-biobj-mixint_f019_i15_d005 1.0",
  "bbob-biobj-mixint_f019_i15_d010 1.0",
  "bbob-biobj-mixint_f019_i15_d020 1.0",
  "bbob-biobj-mixint_f019_i15_d040 1.0",
  "bbob-biobj-mixint_f019_i15_d080 1.0",
  "bbob-biobj-mixint_f019_i15_d160 1.0",
  "bbob-biobj-mixint_f020_i01_d005 1.0",
  "bbob-biobj-mixint_f020_i01_d010 1.0",
  "bbob-biobj-mixint_f020_i01_d020 1.0",
  "bbob-biobj-mixint_f020_i01_d040 1.0",
  "bbob-biobj-mixint_f020_i01_d080 1.0",
  "bbob-biobj-mixint_f020_i01_d160 1.0",
  "bbob-biobj-mixint_f020_i02_d005 1.0",
  "bbob-biobj-mixint_f020_i02_d010 1.0",
  "bbob-biobj-mixint_f020_i02_d020 1.0",
  "bbob-biobj-mixint_f020_i02_d040 1.0",
  "bbob-biobj-mixint_f020_i02_d080 1.0",
  "bbob-biobj-mixint_f020_i02_d160 1.0",
  "bbob-biobj-mixint_f020_i03_d005 1.0",
  "bbob-biobj-mixint_f020_i03_d010 1.0",
  "bbob-biobj-mixint_f020_i03_d020 1.0",
  "bbob-biobj-mixint_f020_i03_d040 1.0",
  "bbob-biobj-mixint_f020_i03_d080 1.0",
  "bbob-biobj-mixint_f020_i03_d160 1.0",
  "bbob-biobj-mixint_f020_i04_d005 1.0",
  "bbob-biobj-mixint_f020_i04_d010 1.0",
  "bbob-biobj-mixint_f020_i04_d020 1.0",
  "bbob-biobj-mixint_f020_i04_d040 1.0",
  "bbob-biobj-mixint_f020_i04_d080 1.0",
  "bbob-biobj-mixint_f020_i04_d160 1.0",
  "bbob-biobj-mixint_f020_i05_d005 1.0",
  "bbob-biobj-mixint_f020_i05_d010 1.0",
  "bbob-biobj-mixint_f020_i05_d020 1.0",
  "bbob-biobj-mixint_f020_i05_d040 1.0",
  "bbob-biobj-mixint_f020_i05_d080 1.0",
  "bbob-biobj-mixint_f020_i05_d160 1.0",
  "bbob-biobj-mixint_f020_i06_d005 1.0",
  "bbob-biobj-mixint_f020_i06_d010 1.0",
  "bbob-biobj-mixint_f020_i06_d020 1.0",
  "bbob-biobj-mixint_f020_i06_d040 1.0",
  "bbob-biobj-mixint_f020_i06_d080 1.0",
  "bbob-biobj-mixint_f020_i06_d160 1.0",
  "bbob-biobj-mixint_f020_i07_d005 1.0",
  "bbob-biobj-mixint_f020_i07_d010 1.0",
  "bbob-biobj-mixint_f020_i07_d020 1.0",
  "bbob-biobj-mixint_f020_i07_d040 1.0",
  "bbob-biobj-mixint_f020_i07_d080 1.0",
  "bbob-biobj-mixint_f020_i07_d160 1.0",
  "bbob-biobj-mixint_f020_i08_d005 1.0",
  "bbob-biobj-mixint_f020_i08_d010 1.0",
  "bbob-biobj-mixint_f020_i08_d020 1.0",
  "bbob-biobj-mixint_f020_i08_d040 1.0",
  "bbob-biobj-mixint_f020_i08_d080 1.0",
  "bbob-biobj-mixint_f020_i08_d160 1.0",
  "bbob-biobj-mixint_f020_i09_d005 1.0",
  "bbob-biobj-mixint_f020_i09_d010 1.0",
  "bbob-biobj-mixint_f020_i09_d020 1.0",
  "bbob-biobj-mixint_f020_i09_d040 1.0",
  "bbob-biobj-mixint_f020_i09_d080 1.0",
  "bbob-biobj-mixint_f020_i09_d160 1.0",
  "bbob-biobj-mixint_f020_i10_d005 1.0",
  "bbob-biobj-mixint_f020_i10_d010 1.0",
  "bbob-biobj-mixint_f020_i10_d020 1.0",
  "bbob-biobj-mixint_f020_i10_d040 1.0",
  "bbob-biobj-mixint_f020_i10_d080 1.0",
  "bbob-biobj-mixint_f020_i10_d160 1.0",
  "bbob-biobj-mixint_f020_i11_d005 1.0",
  "bbob-biobj-mixint_f020_i11_d010 1.0",
  "bbob-biobj-mixint_f020_i11_d020 1.0",
  "bbob-biobj-mixint_f020_i11_d040 1.0",
  "bbob-biobj-mixint_f020_i11_d080 1.0",
  "bbob-biobj-mixint_f020_i11_d160 1.0",
  "bbob-biobj-mixint_f020_i12_d005 1.0",
  "bbob-biobj-mixint_f020_i12_d010 1.0",
  "bbob-biobj-mixint_f020_i12_d020 1.0",
  "bbob-biobj-mixint_f020_i12_d040 1.0",
  "bbob-biobj-mixint_f020_i12_d080 1.0",
  "bbob-biobj-mixint_f020_i12_d160 1.0",
  "bbob-biobj-mixint_f020_i13_d005 1.0",
  "bbob-biobj-mixint_f020_i13_d010 1.0",
  "bbob-biobj-mixint_f020_i13_d020 1.0",
  "bbob-biobj-mixint_f020_i13_d040 1.0",
  "bbob-biobj-mixint_f020_i13_d080 1.0",
  "bbob-biobj-mixint_f020_i13_d160 1.0",
  "bbob-biobj-mixint_f020_i14_d005 1.0",
  "bbob-biobj-mixint_f020_i14_d010 1.0",
  "bbob-biobj-mixint_f020_i14_d020 1.0",
  "bbob-biobj-mixint_f020_i14_d040 1.0",
  "bbob-biobj-mixint_f020_i14_d080 1.0",
  "bbob-biobj-mixint_f020_i14_d160 1.0",
  "bbob-biobj-mixint_f020_i15_d005 1.0",
  "bbob-biobj-mixint_f020_i15_d010 1.0",
  "bbob-biobj-mixint_f020_i15_d020 1.0",
  "bbob-biobj-mixint_f020_i15_d040 1.0",
  "bbob-biobj-mixint_f020_i15_d080 1.0",
  "bbob-biobj-mixint_f020_i15_d160 1.0",
  "bbob-biobj-mixint_f021_i01_d005 1.0",
  "bbob-biobj-mixint_f021_i01_d010 1.0",
  "bbob-biobj-mixint_f021_i01_d020 1.0",
  "bbob-biobj-mixint_f021_i01_d040 1.0",
  "bbob-biobj-mixint_f021_i01_d080 1.0",
  "bbob-biobj-mixint_f021_i01_d160 1.0",
  "bbob-biobj-mixint_f021_i02_d005 1.0",
  "bbob-biobj-mixint_f021_i02_d010 1.0",
  "bbob-biobj-mixint_f021_i02_d020 1.0",
  "bbob-biobj-mixint_f021_i02_d040 1.0",
  "bbob-biobj-mixint_f021_i02_d080 1.0",
  "bbob-biobj-mixint_f021_i02_d160 1.0",
  "bbob-biobj-mixint_f021_i03_d005 1.0",
  "bbob-biobj-mixint_f021_i03_d010 1.0",
  "bbob-biobj-mixint_f021_i03_d020 1.0",
  "bbob-biobj-mixint_f021_i03_d040 1.0",
  "bbob-biobj-mixint_f021_i03_d080 1.0",
  "bbob-biobj-mixint_f021_i03_d160 1.0",
  "bbob-biobj-mixint_f021_i04_d005 1.0",
  "bbob-biobj-mixint_f021_i04_d010 1.0",
  "bbob-biobj-mixint_f021_i04_d020 1.0",
  "bbob-biobj-mixint_f021_i04_d040 1.0",
  "bbob-biobj-mixint_f021_i04_d080 1.0",
  "bbob-biobj-mixint_f021_i04_d160 1.0",
  "bbob-biobj-mixint_f021_i05_d005 1.0",
  "bbob-biobj-mixint_f021_i05_d010 1.0",
  "bbob-biobj-mixint_f021_i05_d020 1.0",
  "bbob-biobj-mixint_f021_i05_d040 1.0",
  "bbob-biobj-mixint_f021_i05_d080 1.0",
  "bbob-biobj-mixint_f021_i05_d160 1.0",
  "bbob-biobj-mixint_f021_i06_d005 1.0",
  "bbob-biobj-mixint_f021_i06_d010 1.0",
  "bbob-biobj-mixint_f021_i06_d020 1.0",
  "bbob-biobj-mixint_f021_i06_d040 1.0",
  "bbob-biobj-mixint_f021_i06_d080 1.0",
  "bbob-biobj-mixint_f021_i06_d160 1.0",
  "bbob-biobj-mixint_f021_i07_d005 1.0",
  "bbob-biobj-mixint_f021_i07_d010 1.0",
  "bbob-biobj-mixint_f021_i07_d020 1.0",
  "bbob-biobj-mixint_f021_i07_d040 1.0",
  "bbob-biobj-mixint_f021_i07_d080 1.0",
  "bbob-biobj-mixint_f021_i07_d160 1.0",
  "bbob-biobj-mixint_f021_i08_d005 1.0",
  "bbob-biobj-mixint_f021_i08_d010 1.0",
  "bbob-biobj-mixint_f021_i08_d020 1.0",
  "bbob-biobj-mixint_f021_i08_d040 1.0",
  "bbob-biobj-mixint_f021_i08_d080 1.0",
  "bbob-biobj-mixint_f021_i08_d160 1.0",
  "bbob-biobj-mixint_f021_i09_d005 1.0",
  "bbob-biobj-mixint_f021_i09_d010 1.0",
  "bbob-biobj-mixint_f021_i09_d020 1.0",
  "bbob-biobj-mixint_f021_i09_d040 1.0",
  "bbob-biobj-mixint_f021_i09_d080 1.0",
  "bbob-biobj-mixint_f021_i09_d160 1.0",
  "bbob-biobj-mixint_f021_i10_d005 1.0",
  "bbob-biobj-mixint_f021_i10_d010 1.0",
  "bbob-biobj-mixint_f021_i10_d020 1.0",
  "bbob-biobj-mixint_f021_i10_d040 1.0",
  "bbob-biobj-mixint_f021_i10_d080 1.0",
  "bbob-biobj-mixint_f021_i10_d160 1.0",
  "bbob-biobj-mixint_f021_i11_d005 1.0",
  "bbob-biobj-mixint_f021_i11_d010 1.0",
  "bbob-biobj-mixint_f021_i11_d020 1.0",
  "bbob-biobj-mixint_f021_i11_d040 1.0",
  "bbob-biobj-mixint_f021_i11_d080 1.0",
  "bbob-biobj-mixint_f021_i11_d160 1.0",
  "bbob-biobj-mixint_f021_i12_d005 1.0",
  "bbob-biobj-mixint_f021_i12_d010 1.0",
  "bbob-biobj-mixint_f021_i12_d020 1.0",
  "bbob-biobj-mixint_f021_i12_d040 1.0",
  "bbob-biobj-mixint_f021_i12_d080 1.0",
  "bbob-biobj-mixint_f021_i12_d160 1.0",
  "bbob-biobj-mixint_f021_i13_d005 1.0",
  "bbob-biobj-mixint_f021_i13_d010 1.0",
  "bbob-biobj-mixint_f021_i13_d020 1.0",
  "bbob-biobj-mixint_f021_i13_d040 1.0",
  "bbob-biobj-mixint_f021_i13_d080 1.0",
  "bbob-biobj-mixint_f021_i13_d160 1.0",
  "bbob-biobj-mixint_f021_i14_d005 1.0",
  "bbob-biobj-mixint_f021_i14_d010 1.0",
  "bbob-biobj-mixint_f021_i14_d020 1.0",
  "bbob-biobj-mixint_f021_i14_d040 1.0",
  "bbob-biobj-mixint_f021_i14_d080 1.0",
  "bbob-biobj-mixint_f021_i14_d160 1.0",
  "bbob-biobj-mixint_f021_i15_d005 1.0",
  "bbob-biobj-mixint_f021_i15_d010 1.0",
  "bbob-biobj-mixint_f021_i15_d020 1.0",
  "bbob-biobj-mixint_f021_i15_d040 1.0",
  "bbob-biobj-mixint_f021_i15_d080 1.0",
  "bbob-biobj-mixint_f021_i15_d160 1.0",
  "bbob-biobj-mixint_f022_i01_d005 1.0",
  "bbob-biobj-mixint_f022_i01_d010 1.0",
  "bbob-biobj-mixint_f022_i01_d020 1.0",
  "bbob-biobj-mixint_f022_i01_d040 1.0",
  "bbob-biobj-mixint_f022_i01_d080 1.0",
  "bbob-biobj-mixint_f022_i01_d160 1.0",
  "bbob-biobj-mixint_f022_i02_d005 1.0",
  "bbob-biobj-mixint_f022_i02_d010 1.0",
  "bbob-biobj-mixint_f022_i02_d020 1.0",
  "bbob-biobj-mixint_f022_i02_d040 1.0",
  "bbob-biobj-mixint_f022_i02_d080 1.0",
  "bbob-biobj-mixint_f022_i02_d160 1.0",
  "bbob-biobj-mixint_f022_i03_d005 1.0",
  "bbob-biobj-mixint_f022_i03_d010 1.0",
  "bbob-biobj-mixint_f022_i03_d020 1.0",
  "bbob-biobj-mixint_f022_i03_d040 1.0",
  "bbob-biobj-mixint_f022_i03_d080 1.0",
  "bbob-biobj-mixint_f022_i03_d160 1.0",
  "bbob-biobj-mixint_f022_i04_d005 1.0",
  "bbob-biobj-mixint_f022_i04_d010 1.0",
  "bbob-biobj-mixint_f022_i04_d020 1.0",
  "bbob-biobj-mixint_f022_i04_d040 1.0",
  "bbob-biobj-mixint_f022_i04_d080 1.0",
  "bbob-biobj-mixint_f022_i04_d160 1.0",
  "bbob-biobj-mixint_f022_i05_d005 1.0",
  "bbob-biobj-mixint_f022_i05_d010 1.0",
  "bbob-biobj-mixint_f022_i05_d020 1.0",
  "bbob-biobj-mixint_f022_i05_d040 1.0",
  "bbob-biobj-mixint_f022_i05_d080 1.0",
  "bbob-biobj-mixint_f022_i05_d160 1.0",
  "bbob-biobj-mixint_f022_i06_d005 1.0",
  "bbob-biobj-mixint_f022_i06_d010 1.0",
  "bbob-biobj-mixint_f022_i06_d020 1.0",
  "bbob-biobj-mixint_f022_i06_d040 1.0",
  "bbob-biobj-mixint_f022_i06_d080 1.0",
  "bbob-biobj-mixint_f022_i06_d160 1.0",
  "bbob-biobj-mixint_f022_i07_d005 1.0",
  "bbob-biobj-mixint_f022_i07_d010 1.0",
  "bbob-biobj-mixint_f022_i07_d020 1.0",
  "bbob-biobj-mixint_f022_i07_d040 1.0",
  "bbob-biobj-mixint_f022_i07_d080 1.0",
  "bbob-biobj-mixint_f022_i07_d160 1.0",
  "bbob-biobj-mixint_f022_i08_d005 1.0",
  "bbob-biobj-mixint_f022_i08_d010 1.0",
  "bbob-biobj-mixint_f022_i08_d020 1.0",
  "bbob-biobj-mixint_f022_i08_d040 1.0",
  "bbob-biobj-mixint_f022_i08_d080 1.0",
  "bbob-biobj-mixint_f022_i08_d160 1.0",
  "bbob-biobj-mixint_f022_i09_d005 1.0",
  "bbob-biobj-mixint_f022_i09_d010 1.0",
  "bbob-biobj-mixint_f022_i09_d020 1.0",
  "bbob-biobj-mixint_f022_i09_d040 1.0",
  "bbob-biobj-mixint_f022_i09_d080 1.0",
  "bbob-biobj-mixint_f022_i09_d160 1.0",
  "bbob-biobj-mixint_f022_i10_d005 1.0",
  "bbob-biobj-mixint_f022_i10_d010 1.0",
  "bbob-biobj-mixint_f022_i10_d020 1.0",
  "bbob-biobj-mixint_f022_i10_d040 1.0",
  "bbob-biobj-mixint_f022_i10_d080 1.0",
  "bbob-biobj-mixint_f022_i10_d160 1.0",
  "bbob-biobj-mixint_f022_i11_d005 1.0",
  "bbob-biobj-mixint_f022_i11_d010 1.0",
  "bbob-biobj-mixint_f022_i11_d020 1.0",
  "bbob-biobj-mixint_f022_i11_d040 1.0",
  "bbob-biobj-mixint_f022_i11_d080 1.0",
  "bbob-biobj-mixint_f022_i11_d160 1.0",
  "bbob-biobj-mixint_f022_i12_d005 1.0",
  "bbob-biobj-mixint_f022_i12_d010 1.0",
  "bbob-biobj-mixint_f022_i12_d020 1.0",
  "bbob-biobj-mixint_f022_i12_d040 1.0",
  "bbob-biobj-mixint_f022_i12_d080 1.0",
  "bbob-biobj-mixint_f022_i12_d160 1.0",
  "bbob-biobj-mixint_f022_i13_d005 1.0",
  "bbob-biobj-mixint_f022_i13_d010 1.0",
  "bbob-biobj-mixint_f022_i13_d020 1.0",
  "bbob-biobj-mixint_f022_i13_d040 1.0",
  "bbob-biobj-mixint_f022_i13_d080 1.0",
  "bbob-biobj-mixint_f022_i13_d160 1.0",
  "bbob-biobj-mixint_f022_i14_d005 1.0",
  "bbob-biobj-mixint_f022_i14_d010 1.0",
  "bbob-biobj-mixint_f022_i14_d020 1.0",
  "bbob-biobj-mixint_f022_i14_d040 1.0",
  "bbob-biobj-mixint_f022_i14_d080 1.0",
  "bbob-biobj-mixint_f022_i14_d160 1.0",
  "bbob-biobj-mixint_f022_i15_d005 1.0",
  "bbob-biobj-mixint_f022_i15_d010 1.0",
  "bbob-biobj-mixint_f022_i15_d020 1.0",
  "bbob-biobj-mixint_f022_i15_d040 1.0",
  "bbob-biobj-mixint_f022_i15_d080 1.0",
  "bbob-biobj-mixint_f022_i15_d160 1.0",
  "bbob-biobj-mixint_f023_i01_d005 1.0",
  "bbob-biobj-mixint_f023_i01_d010 1.0",
  "bbob-biobj-mixint_f023_i01_d020 1.0",
  "bbob-biobj-mixint_f023_i01_d040 1.0",
  "bbob-biobj-mixint_f023_i01_d080 1.0",
  "bbob-biobj-mixint_f023_i01_d160 1.0",
  "bbob-biobj-mixint_f023_i02_d005 1.0",
  "bbob-biobj-mixint_f023_i02_d010 1.0",
  "bbob-biobj-mixint_f023_i02_d020 1.0",
  "bbob-biobj-mixint_f023_i02_d040 1.0",
  "bbob-biobj-mixint_f023_i02_d080 1.0",
  "bbob-biobj-mixint_f023_i02_d160 1.0",
  "bbob-biobj-mixint_f023_i03_d005 1.0",
  "bbob-biobj-mixint_f023_i03_d010 1.0",
  "bbob-biobj-mixint_f023_i03_d020 1.0",
  "bbob-biobj-mixint_f023_i03_d040 1.0",
  "bbob-biobj-mixint_f023_i03_d080 1.0",
  "bbob-biobj-mixint_f023_i03_d160 1.0",
  "bbob-biobj-mixint_f023_i04_d005 1.0",
  "bbob-biobj-mixint_f023_i04_d010 1.0",
  "bbob-biobj-mixint_f023_i04_d020 1.0",
  "bbob-biobj-mixint_f023_i04_d040 1.0",
  "bbob-biobj-mixint_f023_i04_d080 1.0",
  "bbob-biobj-mixint_f023_i04_d160 1.0",
  "bbob-biobj-mixint_f023_i05_d005 1.0",
  "bbob-biobj-mixint_f023_i05_d010 1.0",
  "bbob-biobj-mixint_f023_i05_d020 1.0",
  "bbob-biobj-mixint_f023_i05_d040 1.0",
  "bbob-biobj-mixint_f023_i05_d080 1.0",
  "bbob-biobj-mixint_f023_i05_d160 1.0",
  "bbob-biobj-mixint_f023_i06_d005 1.0",
  "bbob-biobj-mixint_f023_i06_d010 1.0",
  "bbob-biobj-mixint_f023_i06_d020 1.0",
  "bbob-biobj-mixint_f023_i06_d040 1.0",
  "bbob-biobj-mixint_f023_i06_d080 1.0",
  "bbob-biobj-mixint_f023_i06_d160 1.0",
  "bbob-biobj-mixint_f023_i07_d005 1.0",
  "bbob-biobj-mixint_f023_i07_d010 1.0",
  "bbob-biobj-mixint_f023_i07_d020 1.0",
  "bbob-biobj-mixint_f023_i07_d040 1.0",
  "bbob-biobj-mixint_f023_i07_d080 1.0",
  "bbob-biobj-mixint_f023_i07_d160 1.0",
  "bbob-biobj-mixint_f023_i08_d005 1.0",
  "bbob-biobj-mixint_f023_i08_d010 1.0",
  "bbob-biobj-mixint_f023_i08_d020 1.0",
  "bbob-biobj-mixint_f023_i08_d040 1.0",
  "bbob-biobj-mixint_f023_i08_d080 1.0",
  "bbob-biobj-mixint_f023_i08_d160 1.0",
  "bbob-biobj-mixint_f023_i09_d005 1.0",
  "bbob-biobj-mixint_f023_i09_d010 1.0",
  "bbob-biobj-mixint_f023_i09_d020 1.0",
  "bbob-biobj-mixint_f023_i09_d040 1.0",
  "bbob-biobj-mixint_f023_i09_d080 1.0",
  "bbob-biobj-mixint_f023_i09_d160 1.0",
  "bbob-biobj-mixint_f023_i10_d005 1.0",
  "bbob-biobj-mixint_f023_i10_d010 1.0",
  "bbob-biobj-mixint_f023_i10_d020 1.0",
  "bbob-biobj-mixint_f023_i10_d040 1.0",
  "bbob-biobj-mixint_f023_i10_d080 1.0",
  "bbob-biobj-mixint_f023_i10_d160 1.0",
  "bbob-biobj-mixint_f023_i11_d005 1.0",
  "bbob-biobj-mixint_f023_i11_d010 1.0",
  "bbob-biobj-mixint_f023_i11_d020 1.0",
  "bbob-biobj-mixint_f023_i11_d040 1.0",
  "bbob-biobj-mixint_f023_i11_d080 1.0",
  "bbob-biobj-mixint_f023_i11_d160 1.0",
  "bbob-biobj-mixint_f023_i12_d005 1.0",
  "bbob-biobj-mixint_f023_i12_d010 1.0",
  "bbob-biobj-mixint_f023_i12_d020 1.0",
  "bbob-biobj-mixint_f023_i12_d040 1.0",
  "bbob-biobj-mixint_f023_i12_d080 1.0",
  "bbob-biobj-mixint_f023_i12_d160 1.0",
  "bbob-biobj-mixint_f023_i13_d005 1.0",
  "bbob-biobj-mixint_f023_i13_d010 1.0",
  "bbob-biobj-mixint_f023_i13_d020 1.0",
  "bbob-biobj-mixint_f023_i13_d040 1.0",
  "bbob-biobj-mixint_f023_i13_d080 1.0",
  "bbob-biobj-mixint_f023_i13_d160 1.0",
  "bbob-biobj-mixint_f023_i14_d005 1.0",
  "bbob-biobj-mixint_f023_i14_d010 1.0",
  "bbob-biobj-mixint_f023_i14_d020 1.0",
  "bbob-biobj-mixint_f023_i14_d040 1.0",
  "bbob-biobj-mixint_f023_i14_d080 1.0",
  "bbob-biobj-mixint_f023_i14_d160 1.0",
  "bbob-biobj-mixint_f023_i15_d005 1.0",
  "bbob-biobj-mixint_f023_i15_d010 1.0",
  "bbob-biobj-mixint_f023_i15_d020 1.0",
  "bbob-biobj-mixint_f023_i15_d040 1.0",
  "bbob-biobj-mixint_f023_i15_d080 1.0",
  "bbob-biobj-mixint_f023_i15_d160 1.0",
  "bbob-biobj-mixint_f024_i01_d005 1.0",
  "bbob-biobj-mixint_f024_i01_d010 1.0",
  "bbob-biobj-mixint_f024_i01_d020 1.0",
  "bbob-biobj-mixint_f024_i01_d040 1.0",
  "bbob-biobj-mixint_f024_i01_d080 1.0",
  "bbob-biobj-mixint_f024_i01_d160 1.0",
  "bbob-biobj-mixint_f024_i02_d005 1.0",
  "bbob-biobj-mixint_f024_i02_d010 1.0",
  "bbob-biobj-mixint_f024_i02_d020 1.0",
  "bbob-biobj-mixint_f024_i02_d040 1.0",
  "bbob-biobj-mixint_f024_i02_d080 1.0",
  "bbob-biobj-mixint_f024_i02_d160 1.0",
  "bbob-biobj-mixint_f024_i03_d005 1.0",
  "bbob-biobj-mixint_f024_i03_d010 1.0",
  "bbob-biobj-mixint_f024_i03_d020 1.0",
  "bbob-biobj-mixint_f024_i03_d040 1.0",
  "bbob-biobj-mixint_f024_i03_d080 1.0",
  "bbob-biobj-mixint_f024_i03_d160 1.0",
  "bbob-biobj-mixint_f024_i04_d005 1.0",
  "bbob-biobj-mixint_f024_i04_d010 1.0",
  "bbob-biobj-mixint_f024_i04_d020 1.0",
  "bbob-biobj-mixint_f024_i04_d040 1.0",
  "bbob-biobj-mixint_f024_i04_d080 1.0",
  "bbob-biobj-mixint_f024_i04_d160 1.0",
  "bbob-biobj-mixint_f024_i05_d005 1.0",
  "bbob-biobj-mixint_f024_i05_d010 1.0",
  "bbob-biobj-mixint_f024_i05_d020 1.0",
  "bbob-biobj-mixint_f024_i05_d040 1.0",
  "bbob-biobj-mixint_f024_i05_d080 1.0",
  "bbob-biobj-mixint_f024_i05_d160 1.0",
  "bbob-biobj-mixint_f024_i06_d005 1.0",
  "bbob-biobj-mixint_f024_i06_d010 1.0",
  "bbob-biobj-mixint_f024_i06_d020 1.0",
  "bbob-biobj-mixint_f024_i06_d040 1.0",
  "bbob-biobj-mixint_f024_i06_d080 1.0",
  "bbob-biobj-mixint_f024_i06_d160 1.0",
  "bbob-biobj-mixint_f024_i07_d005 1.0",
  "bbob-biobj-mixint_f024_i07_d010 1.0",
  "bbob-biobj-mixint_f024_i07_d020 1.0",
  "bbob-biobj-mixint_f024_i07_d040 1.0",
  "bbob-biobj-mixint_f024_i07_d080 1.0",
  "bbob-biobj-mixint_f024_i07_d160 1.0",
  "bbob-biobj-mixint_f024_i08_d005 1.0",
  "bbob-biobj-mixint_f024_i08_d010 1.0",
  "bbob-biobj-mixint_f024_i08_d020 1.0",
  "bbob-biobj-mixint_f024_i08_d040 1.0",
  "bbob-biobj-mixint_f024_i08_d080 1.0",
  "bbob-biobj-mixint_f024_i08_d160 1.0",
  "bbob-biobj-mixint_f024_i09_d005 1.0",
  "bbob-biobj-mixint_f024_i09_d010 1.0",
  "bbob-biobj-mixint_f024_i09_d020 1.0",
  "bbob-biobj-mixint_f024_i09_d040 1.0",
  "bbob-biobj-mixint_f024_i09_d080 1.0",
  "bbob-biobj-mixint_f024_i09_d160 1.0",
  "bbob-biobj-mixint_f024_i10_d005 1.0",
  "bbob-biobj-mixint_f024_i10_d010 1.0",
  "bbob-biobj-mixint_f024_i10_d020 1.0",
  "bbob-biobj-mixint_f024_i10_d040 1.0",
  "bbob-biobj-mixint_f024_i10_d080 1.0",
  "bbob-biobj-mixint_f024_i10_d160 1.0",
  "bbob-biobj-mixint_f024_i11_d005 1.0",
  "bbob-biobj-mixint_f024_i11_d010 1.0",
  "bbob-biobj-mixint_f024_i11_d020 1.0",
  "bbob-biobj-mixint_f024_i11_d040 1.0",
  "bbob-biobj-mixint_f024_i11_d080 1.0",
  "bbob-biobj-mixint_f024_i11_d160 1.0",
  "bbob-biobj-mixint_f024_i12_d005 1.0",
  "bbob-biobj-mixint_f024_i12_d010 1.0",
  "bbob-biobj-mixint_f024_i12_d020 1.0",
  "bbob-biobj-mixint_f024_i12_d040 1.0",
  "bbob-biobj-mixint_f024_i12_d080 1.0",
  "bbob-biobj-mixint_f024_i12_d160 1.0",
  "bbob-biobj-mixint_f024_i13_d005 1.0",
  "bbob-biobj-mixint_f024_i13_d010 1.0",
  "bbob-biobj-mixint_f024_i13_d020 1.0",
  "bbob-biobj-mixint_f024_i13_d040 1.0",
  "bbob-biobj-mixint_f024_i13_d080 1.0",
  "bbob-biobj-mixint_f024_i13_d160 1.0",
  "bbob-biobj-mixint_f024_i14_d005 1.0",
  "bbob-biobj-mixint_f024_i14_d010 1.0",
  "bbob-biobj-mixint_f024_i14_d020 1.0",
  "bbob-biobj-mixint_f024_i14_d040 1.0",
  "bbob-biobj-mixint_f024_i14_d080 1.0",
  "bbob-biobj-mixint_f024_i14_d160 1.0",
  "bbob-biobj-mixint_f024_i15_d005 1.0",
  "bbob-biobj-mixint_f024_i15_d010 1.0",
  "bbob-biobj-mixint_f024_i15_d020 1.0",
  "bbob-biobj-mixint_f024_i15_d040 1.0",
  "bbob-biobj-mixint_f024_i15_d080 1.0",
  "bbob-biobj-mixint_f024_i15_d160 1.0",
  "bbob-biobj-mixint_f025_i01_d005 1.0",
  "bbob-biobj-mixint_f025_i01_d010 1.0",
  "bbob-biobj-mixint_f025_i01_d020 1.0",
  "bbob-biobj-mixint_f025_i01_d040 1.0",
  "bbob-biobj-mixint_f025_i01_d080 1.0",
  "bbob-biobj-mixint_f025_i01_d160 1.0",
  "bbob-biobj-mixint_f025_i02_d005 1.0",
  "bbob-biobj-mixint_f025_i02_d010 1.0",
  "bbob-biobj-mixint_f025_i02_d020 1.0",
  "bbob-biobj-mixint_f025_i02_d040 1.0",
  "bbob-biobj-mixint_f025_i02_d080 1.0",
  "bbob-biobj-mixint_f025_i02_d160 1.0",
  "bbob-biobj-mixint_f025_i03_d005 1.0",
  "bbob-biobj-mixint_f025_i03_d010 1.0",
  "bbob-biobj-mixint_f025_i03_d020 1.0",
  "bbob-biobj-mixint_f025_i03_d040 1.0",
  "bbob-biobj-mixint_f025_i03_d080 1.0",
  "bbob-biobj-mixint_f025_i03_d160 1.0",
  "bbob-biobj-mixint_f025_i04_d005 1.0",
  "bbob-biobj-mixint_f025_i04_d010 1.0",
  "bbob-biobj-mixint_f025_i04_d020 1.0",
  "bbob-biobj-mixint_f025_i04_d040 1.0",
  "bbob-biobj-mixint_f025_i04_d080 1.0",
  "bbob-biobj-mixint_f025_i04_d160 1.0",
  "bbob-biobj-mixint_f025_i05_d005 1.0",
  "bbob-biobj-mixint_f025_i05_d010 1.0",
  "bbob-biobj-mixint_f025_i05_d020 1.0",
  "bbob-biobj-mixint_f025_i05_d040 1.0",
  "bbob-biobj-mixint_f025_i05_d080 1.0",
  "bbob-biobj-mixint_f025_i05_d160 1.0",
  "bbob-biobj-mixint_f025_i06_d005 1.0",
  "bbob-biobj-mixint_f025_i06_d010 1.0",
  "bbob-biobj-mixint_f025_i06_d020 1.0",
  "bbob-biobj-mixint_f025_i06_d040 1.0",
  "bbob-biobj-mixint_f025_i06_d080 1.0",
  "bbob-biobj-mixint_f025_i06_d160 1.0",
  "bbob-biobj-mixint_f025_i07_d005 1.0",
  "bbob-biobj-mixint_f025_i07_d010 1.0",
  "bbob-biobj-mixint_f025_i07_d020 1.0",
  "bbob-biobj-mixint_f025_i07_d040 1.0",
  "bbob-biobj-mixint_f025_i07_d080 1.0",
  "bbob-biobj-mixint_f025_i07_d160 1.0",
  "bbob-biobj-mixint_f025_i08_d005 1.0",
  "bbob-biobj-mixint_f025_i08_d010 1.0",
  "bbob-biobj-mixint_f025_i08_d020 1.0",
  "bbob-biobj-mixint_f025_i08_d040 1.0",
  "bbob-biobj-mixint_f025_i08_d080 1.0",
  "bbob-biobj-mixint_f025_i08_d160 1.0",
  "bbob-biobj-mixint_f025_i09_d005 1.0",
  "bbob-biobj-mixint_f025_i09_d010 1.0",
  "bbob-biobj-mixint_f025_i09_d020 1.0",
  "bbob-biobj-mixint_f025_i09_d040 1.0",
  "bbob-biobj-mixint_f025_i09_d080 1.0",
  "bbob-biobj-mixint_f025_i09_d160 1.0",
  "bbob-biobj-mixint_f025_i10_d005 1.0",
  "bbob-biobj-mixint_f025_i10_d010 1.0",
  "bbob-biobj-mixint_f025_i10_d020 1.0",
  "bbob-biobj-mixint_f025_i10_d040 1.0",
  "bbob-biobj-mixint_f025_i10_d080 1.0",
  "bbob-biobj-mixint_f025_i10_d160 1.0",
  "bbob-biobj-mixint_f025_i11_d005 1.0",
  "bbob-biobj-mixint_f025_i11_d010 1.0",
  "bbob-biobj-mixint_f025_i11_d020 1.0",
  "bbob-biobj-mixint_f025_i11_d040 1.0",
  "bbob-biobj-mixint_f025_i11_d080 1.0",
  "bbob-biobj-mixint_f025_i11_d160 1.0",
  "bbob-biobj-mixint_f025_i12_d005 1.0",
  "bbob-biobj-mixint_f025_i12_d010 1.0",
  "bbob-biobj-mixint_f025_i12_d020 1.0",
  "bbob-biobj-mixint_f025_i12_d040 1.0",
  "bbob-biobj-mixint_f025_i12_d080 1.0",
  "bbob-biobj-mixint_f025_i12_d160 1.0",
  "bbob-biobj-mixint_f025_i13_d005 1.0",
  "bbob-biobj-mixint_f025_i13_d010 1.0",
  "bbob-biobj-mixint_f025_i13_d020 1.0",
  "bbob-biobj-mixint_f025_i13_d040 1.0",
  "bbob-biobj-mixint_f025_i13_d080 1.0",
  "bbob-biobj-mixint_f025_i13_d160 1.0",
  "bbob-biobj-mixint_f025_i14_d005 1.0",
  "bbob-biobj-mixint_f025_i14_d010 1.0",
  "bbob-biobj-mixint_f025_i14_d020 1.0",
  "bbob-biobj-mixint_f025_i14_d040 1.0",
  "bbob-biobj-mixint_f025_i14_d080 1.0",
  "bbob-biobj-mixint_f025_i14_d160 1.0",
  "bbob-biobj-mixint_f025_i15_d005 1.0",
  "bbob-biobj-mixint_f025_i15_d010 1.0",
  "bbob-biobj-mixint_f025_i15_d020 1.0",
  "bbob-biobj-mixint_f025_i15_d040 1.0",
  "bbob-biobj-mixint_f025_i15_d080 1.0",
  "bbob-biobj-mixint_f025_i15_d160 1.0",
  "bbob-biobj-mixint_f026_i01_d005 1.0",
  "bbob-biobj-mixint_f026_i01_d010 1.0",
  "bbob-biobj-mixint_f026_i01_d020 1.0",
  "bbob-biobj-mixint_f026_i01_d040 1.0",
  "bbob-biobj-mixint_f026_i01_d080 1.0",
  "bbob-biobj-mixint_f026_i01_d160 1.0",
  "bbob-biobj-mixint_f026_i02_d005 1.0",
  "bbob-biobj-mixint_f026_i02_d010 1.0",
  "bbob-biobj-mixint_f026_i02_d020 1.0",
  "bbob-biobj-mixint_f026_i02_d040 1.0",
  "bbob-biobj-mixint_f026_i02_d080 1.0",
  "bbob-biobj-mixint_f026_i02_d160 1.0",
  "bbob-biobj-mixint_f026_i03_d005 1.0",
  "bbob-biobj-mixint_f026_i03_d010 1.0",
  "bbob-biobj-mixint_f026_i03_d020 1.0",
  "bbob-biobj-mixint_f026_i03_d040 1.0",
  "bbob-biobj-mixint_f026_i03_d080 1.0",
  "bbob-biobj-mixint_f026_i03_d160 1.0",
  "bbob-biobj-mixint_f026_i04_d005 1.0",
  "bbob-biobj-mixint_f026_i04_d010 1.0",
  "bbob-biobj-mixint_f026_i04_d020 1.0",
  "bbob-biobj-mixint_f026_i04_d040 1.0",
  "bbob-biobj-mixint_f026_i04_d080 1.0",
  "bbob-biobj-mixint_f026_i04_d160 1.0",
  "bbob-biobj-mixint_f026_i05_d005 1.0",
  "bbob-biobj-mixint_f026_i05_d010 1.0",
  "bbob-biobj-mixint_f026_i05_d020 1.0",
  "bbob-biobj-mixint_f026_i05_d040 1.0",
  "bbob-biobj-mixint_f026_i05_d080 1.0",
  "bbob-biobj-mixint_f026_i05_d160 1.0",
  "bbob-biobj-mixint_f026_i06_d005 1.0",
  "bbob-biobj-mixint_f026_i06_d010 1.0",
  "bbob-biobj-mixint_f026_i06_d020 1.0",
  "bbob-biobj-mixint_f026_i06_d040 1.0",
  "bbob-biobj-mixint_f026_i06_d080 1.0",
  "bbob-biobj-mixint_f026_i06_d160 1.0",
  "bbob-biobj-mixint_f026_i07_d005 1.0",
  "bbob-biobj-mixint_f026_i07_d010 1.0",
  "bbob-biobj-mixint_f026_i07_d020 1.0",
  "bbob-biobj-mixint_f026_i07_d040 1.0",
  "bbob-biobj-mixint_f026_i07_d080 1.0",
  "bbob-biobj-mixint_f026_i07_d160 1.0",
  "bbob-biobj-mixint_f026_i08_d005 1.0",
  "bbob-biobj-mixint_f026_i08_d010 1.0",
  "bbob-biobj-mixint_f026_i08_d020 1.0",
  "bbob-biobj-mixint_f026_i08_d040 1.0",
  "bbob-biobj-mixint_f026_i08_d080 1.0",
  "bbob-biobj-mixint_f026_i08_d160 1.0",
  "bbob-biobj-mixint_f026_i09_d005 1.0",
  "bbob-biobj-mixint_f026_i09_d010 1.0",
  "bbob-biobj-mixint_f026_i09_d020 1.0",
  "bbob-biobj-mixint_f026_i09_d040 1.0",
  "bbob-biobj-mixint_f026_i09_d080 1.0",
  "bbob-biobj-mixint_f026_i09_d160 1.0",
  "bbob-biobj-mixint_f026_i10_d005 1.0",
  "bbob-biobj-mixint_f026_i10_d010 1.0",
  "bbob-biobj-mixint_f026_i10_d020 1.0",
  "bbob-biobj-mixint_f026_i10_d040 1.0",
  "bbob-biobj-mixint_f026_i10_d080 1.0",
  "bbob-biobj-mixint_f026_i10_d160 1.0",
  "bbob-biobj-mixint_f026_i11_d005 1.0",
  "bbob-biobj-mixint_f026_i11_d010 1.0",
  "bbob-biobj-mixint_f026_i11_d020 1.0",
  "bbob-biobj-mixint_f026_i11_d040 1.0",
  "bbob-biobj-mixint_f026_i11_d080 1.0",
  "bbob-biobj-mixint_f026_i11_d160 1.0",
  "bbob-biobj-mixint_f026_i12_d005 1.0",
  "bbob-biobj-mixint_f026_i12_d010 1.0",
  "bbob-biobj-mixint_f026_i12_d020 1.0",
  "bbob-biobj-mixint_f026_i12_d040 1.0",
  "bbob-biobj-mixint_f026_i12_d080 1.0",
  "bbob-biobj-mixint_f026_i12_d160 1.0",
  "bbob-biobj-mixint_f026_i13_d005 1.0",
  "bbob-biobj-mixint_f026_i13_d010 1.0",
  "bbob-biobj-mixint_f026_i13_d020 1.0",
  "bbob-biobj-mixint_f026_i13_d040 1.0",
  "bbob-biobj-mixint_f026_i13_d080 1.0",
  "bbob-biobj-mixint_f026_i13_d160 1.0",
  "bbob-biobj-mixint_f026_i14_d005 1.0",
  "bbob-biobj-mixint_f026_i14_d010 1.0",
  "bbob-biobj-mixint_f026_i14_d020 1.0",
  "bbob-biobj-mixint_f026_i14_d040 1.0",
  "bbob-biobj-mixint_f026_i14_d080 1.0",
  "bbob-biobj-mixint_f026_i14_d160 1.0",
  "bbob-biobj-mixint_f026_i15_d005 1.0",
  "bbob-biobj-mixint_f026_i15_d010 1.0",
  "bbob-biobj-mixint_f026_i15_d020 1.0",
  "bbob-biobj-mixint_f026_i15_d040 1.0",
  "bbob-biobj-mixint_f026_i15_d080 1.0",
  "bbob-biobj-mixint_f026_i15_d160 1.0",
  "bbob-biobj-mixint_f027_i01_d005 1.0",
  "bbob-biobj-mixint_f027_i01_d010 1.0",
  "bbob-biobj-mixint_f027_i01_d020 1.0",
  "bbob-biobj-mixint_f027_i01_d040 1.0",
  "bbob-biobj-mixint_f027_i01_d080 1.0",
  "bbob-biobj-mixint_f027_i01_d160 1.0",
  "bbob-biobj-mixint_f027_i02_d005 1.0",
  "bbob-biobj-mixint_f027_i02_d010 1.0",
  "bbob-biobj-mixint_f027_i02_d020 1.0",
  "bbob-biobj-mixint_f027_i02_d040 1.0",
  "bbob-biobj-mixint_f027_i02_d080 1.0",
  "bbob-biobj-mixint_f027_i02_d160 1.0",
  "bbob-biobj-mixint_f027_i03_d005 1.0",
  "bbob-biobj-mixint_f027_i03_d010 1.0",
  "bbob-biobj-mixint_f027_i03_d020 1.0",
  "bbob-biobj-mixint_f027_i03_d040 1.0",
  "bbob-biobj-mixint_f027_i03_d080 1.0",
  "bbob-biobj-mixint_f027_i03_d160 1.0",
  "bbob-biobj-mixint_f027_i04_d005 1.0",
  "bbob-biobj-mixint_f027_i04_d010 1.0",
  "bbob-biobj-mixint_f027_i04_d020 1.0",
  "bbob-biobj-mixint_f027_i04_d040 1.0",
  "bbob-biobj-mixint_f027_i04_d080 1.0",
  "bbob-biobj-mixint_f027_i04_d160 1.0",
  "bbob-biobj-mixint_f027_i05_d005 1.0",
  "bbob-biobj-mixint_f027_i05_d010 1.0",
  "bbob-biobj-mixint_f027_i05_d020 1.0",
  "bbob-biobj-mixint_f027_i05_d040 1.0",
  "bbob-biobj-mixint_f027_i05_d080 1.0",
  "bbob-biobj-mixint_f027_i05_d160 1.0",
  "bbob-biobj-mixint_f027_i06_d005 1.0",
  "bbob-biobj-mixint_f027_i06_d010 1.0",
  "bbob-biobj-mixint_f027_i06_d020 1.0",
  "bbob-biobj-mixint_f027_i06_d040 1.0",
  "bbob-biobj-mixint_f027_i06_d080 1.0",
  "bbob-biobj-mixint_f027_i06_d160 1.0",
  "bbob-biobj-mixint_f027_i07_d005 1.0",
  "bbob-biobj-mixint_f027_i07_d010 1.0",
  "bbob-biobj-mixint_f027_i07_d020 1.0",
  "bbob-biobj-mixint_f027_i07_d040 1.0",
  "bbob-biobj-mixint_f027_i07_d080 1.0",
  "bbob-biobj-mixint_f027_i07_d160 1.0",
  "bbob-biobj-mixint_f027_i08_d005 1.0",
  "bbob-biobj-mixint_f027_i08_d010 1.0",
  "bbob-biobj-mixint_f027_i08_d020 1.0",
  "bbob-biobj-mixint_f027_i08_d040 1.0",
  "bbob-biobj-mixint_f027_i08_d080 1.0",
  "bbob-biobj-mixint_f027_i08_d160 1.0",
  "bbob-biobj-mixint_f027_i09_d005 1.0",
  "bbob-biobj-mixint_f027_i09_d010 1.0",
  "bbob-biobj-mixint_f027_i09_d020 1.0",
  "bbob-biobj-mixint_f027_i09_d040 1.0",
  "bbob-biobj-mixint_f027_i09_d080 1.0",
  "bbob-biobj-mixint_f027_i09_d160 1.0",
  "bbob-biobj-mixint_f027_i10_d005 1.0",
  "bbob-biobj-mixint_f027_i10_d010 1.0",
  "bbob-biobj-mixint_f027_i10_d020 1.0",
  "bbob-biobj-mixint_f027_i10_d040 1.0",
  "bbob-biobj-mixint_f027_i10_d080 1.0",
  "bbob-biobj-mixint_f027_i10_d160 1.0",
  "bbob-biobj-mixint_f027_i11_d005 1.0",
  "bbob-biobj-mixint_f027_i11_d010 1.0",
  "bbob-biobj-mixint_f027_i11_d020 1.0",
  "bbob-biobj-mixint_f027_i11_d040 1.0",
  "bbob-biobj-mixint_f027_i11_d080 1.0",
  "bbob-biobj-mixint_f027_i11_d160 1.0",
  "bbob-biobj-mixint_f027_i12_d005 1.0",
  "bbob-biobj-mixint_f027_i12_d010 1.0",
  "bbob-biobj-mixint_f027_i12_d020 1.0",
  "bbob-biobj-mixint_f027_i12_d040 1.0",
  "bbob-biobj-mixint_f027_i12_d080 1.0",
  "bbob-biobj-mixint_f027_i12_d160 1.0",
  "bbob-biobj-mixint_f027_i13_d005 1.0",
  "bbob-biobj-mixint_f027_i13_d010 1.0",
  "bbob-biobj-mixint_f027_i13_d020 1.0",
  "bbob-biobj-mixint_f027_i13_d040 1.0",
  "bbob-biobj-mixint_f027_i13_d080 1.0",
  "bbob-biobj-mixint_f027_i13_d160 1.0",
  "bbob-biobj-mixint_f027_i14_d005 1.0",
  "bbob-biobj-mixint_f027_i14_d010 1.0",
  "bbob-biobj-mixint_f027_i14_d020 1.0",
  "bbob-biobj-mixint_f027_i14_d040 1.0",
  "bbob-biobj-mixint_f027_i14_d080 1.0",
  "bbob-biobj-mixint_f027_i14_d160 1.0",
  "bbob-biobj-mixint_f027_i15_d005 1.0",
  "bbob-biobj-mixint_f027_i15_d010 1.0",
  "bbob-biobj-mixint_f027_i15_d020 1.0",
  "bbob-biobj-mixint_f027_i15_d040 1.0",
  "bbob-biobj-mixint_f027_i15_d080 1.0",
  "bbob-biobj-mixint_f027_i15_d160 1.0",
  "bbob-biobj-mixint_f028_i01_d005 1.0",
  "bbob-biobj-mixint_f028_i01_d010 1.0",
  "bbob-biobj-mixint_f028_i01_d020 1.0",
  "bbob-biobj-mixint_f028_i01_d040 1.0",
  "bbob-biobj-mixint_f028_i01_d080 1.0",
  "bbob-biobj-mixint_f028_i01_d160 1.0",
  "bbob-biobj-mixint_f028_i02_d005 1.0",
  "bbob-biobj-mixint_f028_i02_d010 1.0",
  "bbob-biobj-mixint_f028_i02_d020 1.0",
  "bbob-biobj-mixint_f028_i02_d040 1.0",
  "bbob-biobj-mixint_f028_i02_d080 1.0",
  "bbob-biobj-mixint_f028_i02_d160 1.0",
  "bbob-biobj-mixint_f028_i03_d005 1.0",
  "bbob-biobj-mixint_f028_i03_d010 1.0",
  "bbob-biobj-mixint_f028_i03_d020 1.0",
  "bbob-biobj-mixint_f028_i03_d040 1.0",
  "bbob-biobj-mixint_f028_i03_d080 1.0",
  "bbob-biobj-mixint_f028_i03_d160 1.0",
  "bbob-biobj-mixint_f028_i04_d005 1.0",
  "bbob-biobj-mixint_f028_i04_d010 1.0",
  "bbob-biobj-mixint_f028_i04_d020 1.0",
  "bbob-biobj-mixint_f028_i04_d040 1.0",
  "bbob-biobj-mixint_f028_i04_d080 1.0",
  "bbob-biobj-mixint_f028_i04_d160 1.0",
  "bbob-biobj-mixint_f028_i05_d005 1.0",
  "bbob-biobj-mixint_f028_i05_d010 1.0",
  "bbob-biobj-mixint_f028_i05_d020 1.0",
  "bbob-biobj-mixint_f028_i05_d040 1.0",
  "bbob-biobj-mixint_f028_i05_d080 1.0",
  "bbob-biobj-mixint_f028_i05_d160 1.0",
  "bbob-biobj-mixint_f028_i06_d005 1.0",
  "bbob-biobj-mixint_f028_i06_d010 1.0",
  "bbob-biobj-mixint_f028_i06_d020 1.0",
  "bbob-biobj-mixint_f028_i06_d040 1.0",
  "bbob-biobj-mixint_f028_i06_d080 1.0",
  "bbob-biobj-mixint_f028_i06_d160 1.0",
  "bbob-biobj-mixint_f028_i07_d005 1.0",
  "bbob-biobj-mixint_f028_i07_d010 1.0",
  "bbob-biobj-mixint_f028_i07_d020 1.0",
  "bbob-biobj-mixint_f028_i07_d040 1.0",
  "bbob-biobj-mixint_f028_i07_d080 1.0",
  "bbob-biobj-mixint_f028_i07_d160 1.0",
  "bbob-biobj-mixint_f028_i08_d005 1.0",
  "bbob-biobj-mixint_f028_i08_d010 1.0",
  "bbob-biobj-mixint_f028_i08_d020 1.0",
  "bbob-biobj-mixint_f028_i08_d040 1.0",
  "bbob-biobj-mixint_f028_i08_d080 1.0",
  "bbob-biobj-mixint_f028_i08_d160 1.0",
  "bbob-biobj-mixint_f028_i09_d005 1.0",
  "bbob-biobj-mixint_f028_i09_d010 1.0",
  "bbob-biobj-mixint_f028_i09_d020 1.0",
  "bbob-biobj-mixint_f028_i09_d040 1.0",
  "bbob-biobj-mixint_f028_i09_d080 1.0",
  "bbob-biobj-mixint_f028_i09_d160 1.0",
  "bbob-biobj-mixint_f028_i10_d005 1.0",
  "bbob-biobj-mixint_f028_i10_d010 1.0",
  "bbob-biobj-mixint_f028_i10_d020 1.0",
  "bbob-biobj-mixint_f028_i10_d040 1.0",
  "bbob-biobj-mixint_f028_i10_d080 1.0",
  "bbob-biobj-mixint_f028_i10_d160 1.0",
  "bbob-biobj-mixint_f028_i11_d005 1.0",
  "bbob-biobj-mixint_f028_i11_d010 1.0",
  "bbob-biobj-mixint_f028_i11_d020 1.0",
  "bbob-biobj-mixint_f028_i11_d040 1.0",
  "bbob-biobj-mixint_f028_i11_d080 1.0",
  "bbob-biobj-mixint_f028_i11_d160 1.0",
  "bbob-biobj-mixint_f028_i12_d005 1.0",
  "bbob-biobj-mixint_f028_i12_d010 1.0",
  "bbob-biobj-mixint_f028_i12_d020 1.0",
  "bbob-biobj-mixint_f028_i12_d040 1.0",
  "bbob-biobj-mixint_f028_i12_d080 1.0",
  "bbob-biobj-mixint_f028_i12_d160 1.0",
  "bbob-biobj-mixint_f028_i13_d005 1.0",
  "bbob-biobj-mixint_f028_i13_d010 1.0",
  "bbob-biobj-mixint_f028_i13_d020 1.0",
  "bbob-biobj-mixint_f028_i13_d040 1.0",
  "bbob-biobj-mixint_f028_i13_d080 1.0",
  "bbob-biobj-mixint_f028_i13_d160 1.0",
  "bbob-biobj-mixint_f028_i14_d005 1.0",
  "bbob-biobj-mixint_f028_i14_d010 1.0",
  "bbob-biobj-mixint_f028_i14_d020 1.0",
  "bbob-biobj-mixint_f028_i14_d040 1.0",
  "bbob-biobj-mixint_f028_i14_d080 1.0",
  "bbob-biobj-mixint_f028_i14_d160 1.0",
  "bbob-biobj-mixint_f028_i15_d005 1.0",
  "bbob-biobj-mixint_f028_i15_d010 1.0",
  "bbob-biobj-mixint_f028_i15_d020 1.0",
  "bbob-biobj-mixint_f028_i15_d040 1.0",
  "bbob-biobj-mixint_f028_i15_d080 1.0",
  "bbob-biobj-mixint_f028_i15_d160 1.0",
  "bbob-biobj-mixint_f029_i01_d005 1.0",
  "bbob-biobj-mixint_f029_i01_d010 1.0",
  "bbob-biobj-mixint_f029_i01_d020 1.0",
  "bbob-biobj-mixint_f029_i01_d040 1.0",
  "bbob-biobj-mixint_f029_i01_d080 1.0",
  "bbob-biobj-mixint_f029_i01_d160 1.0",
  "bbob-biobj-mixint_f029_i02_d005 1.0",
  "bbob-biobj-mixint_f029_i02_d010 1.0",
  "bbob-biobj-mixint_f029_i02_d020 1.0",
  "bbob-biobj-mixint_f029_i02_d040 1.0",
  "bbob-biobj-mixint_f029_i02_d080 1.0",
  "bbob-biobj-mixint_f029_i02_d160 1.0",
  "bbob-biobj-mixint_f029_i03_d005 1.0",
  "bbob-biobj-mixint_f029_i03_d010 1.0",
  "bbob-biobj-mixint_f029_i03_d020 1.0",
  "bbob-biobj-mixint_f029_i03_d040 1.0",
  "bbob-biobj-mixint_f029_i03_d080 1.0",
  "bbob-biobj-mixint_f029_i03_d160 1.0",
  "bbob-biobj-mixint_f029_i04_d005 1.0",
  "bbob-biobj-mixint_f029_i04_d010 1.0",
  "bbob-biobj-mixint_f029_i04_d020 1.0",
  "bbob-biobj-mixint_f029_i04_d040 1.0",
  "bbob-biobj-mixint_f029_i04_d080 1.0",
  "bbob-biobj-mixint_f029_i04_d160 1.0",
  "bbob-biobj-mixint_f029_i05_d005 1.0",
  "bbob-biobj-mixint_f029_i05_d010 1.0",
  "bbob-biobj-mixint_f029_i05_d020 1.0",
  "bbob-biobj-mixint_f029_i05_d040 1.0",
  "bbob-biobj-mixint_f029_i05_d080 1.0",
  "bbob-biobj-mixint_f029_i05_d160 1.0",
  "bbob-biobj-mixint_f029_i06_d005 1.0",
  "bbob-biobj-mixint_f029_i06_d010 1.0",
  "bbob-biobj-mixint_f029_i06_d020 1.0",
  "bbob-biobj-mixint_f029_i06_d040 1.0",
  "bbob-biobj-mixint_f029_i06_d080 1.0",
  "bbob-biobj-mixint_f029_i06_d160 1.0",
  "bbob-biobj-mixint_f029_i07_d005 1.0",
  "bbob-biobj-mixint_f029_i07_d010 1.0",
  "bbob-biobj-mixint_f029_i07_d020 1.0",
  "bbob-biobj-mixint_f029_i07_d040 1.0",
  "bbob-biobj-mixint_f029_i07_d080 1.0",
  "bbob-biobj-mixint_f029_i07_d160 1.0",
  "bbob-biobj-mixint_f029_i08_d005 1.0",
  "bbob-biobj-mixint_f029_i08_d010 1.0",
  "bbob-biobj-mixint_f029_i08_d020 1.0",
  "bbob-biobj-mixint_f029_i08_d040 1.0",
  "bbob-biobj-mixint_f029_i08_d080 1.0",
  "bbob-biobj-mixint_f029_i08_d160 1.0",
  "bbob-biobj-mixint_f029_i09_d005 1.0",
  "bbob-biobj-mixint_f029_i09_d010 1.0",
  "bbob-biobj-mixint_f029_i09_d020 1.0",
  "bbob-biobj-mixint_f029_i09_d040 1.0",
  "bbob-biobj-mixint_f029_i09_d080 1.0",
  "bbob-biobj-mixint_f029_i09_d160 1.0",
  "bbob-biobj-mixint_f029_i10_d005 1.0",
  "bbob-biobj-mixint_f029_i10_d010 1.0",
  "bbob-biobj-mixint_f029_i10_d020 1.0",
  "bbob-biobj-mixint_f029_i10_d040 1.0",
  "bbob-biobj-mixint_f029_i10_d080 1.0",
  "bbob-biobj-mixint_f029_i10_d160 1.0",
  "bbob-biobj-mixint_f029_i11_d005 1.0",
  "bbob-biobj-mixint_f029_i11_d010 1.0",
  "bbob-biobj-mixint_f029_i11_d020 1.0",
  "bbob-biobj-mixint_f029_i11_d040 1.0",
  "bbob-biobj-mixint_f029_i11_d080 1.0",
  "bbob-biobj-mixint_f029_i11_d160 1.0",
  "bbob-biobj-mixint_f029_i12_d005 1.0",
  "bbob-biobj-mixint_f029_i12_d010 1.0",
  "bbob-biobj-mixint_f029_i12_d020 1.0",
  "bbob-biobj-mixint_f029_i12_d040 1.0",
  "bbob-biobj-mixint_f029_i12_d080 1.0",
  "bbob-biobj-mixint_f029_i12_d160 1.0",
  "bbob-biobj-mixint_f029_i13_d005 1.0",
  "bbob-biobj-mixint_f029_i13_d010 1.0",
  "bbob-biobj-mixint_f029_i13_d020 1.0",
  "bbob-biobj-mixint_f029_i13_d040 1.0",
  "bbob-biobj-mixint_f029_i13_d080 1.0",
  "bbob-biobj-mixint_f029_i13_d160 1.0",
  "bbob-biobj-mixint_f029_i14_d005 1.0",
  "bbob-biobj-mixint_f029_i14_d010 1.0",
  "bbob-biobj-mixint_f029_i14_d020 1.0",
  "bbob-biobj-mixint_f029_i14_d040 1.0",
  "bbob-biobj-mixint_f029_i14_d080 1.0",
  "bbob-biobj-mixint_f029_i14_d160 1.0",
  "bbob-biobj-mixint_f029_i15_d005 1.0",
  "bbob-biobj-mixint_f029_i15_d010 1.0",
  "bbob-biobj-mixint_f029_i15_d020 1.0",
  "bbob-biobj-mixint_f029_i15_d040 1.0",
  "bbob-biobj-mixint_f029_i15_d080 1.0",
  "bbob-biobj-mixint_f029_i15_d160 1.0",
  "bbob-biobj-mixint_f030_i01_d005 1.0",
  "bbob-biobj-mixint_f030_i01_d010 1.0",
  "bbob-biobj-mixint_f030_i01_d020 1.0",
  "bbob-biobj-mixint_f030_i01_d040 1.0",
  "bbob-biobj-mixint_f030_i01_d080 1.0",
  "bbob-biobj-mixint_f030_i01_d160 1.0",
  "bbob-biobj-mixint_f030_i02_d005 1.0",
  "bbob-biobj-mixint_f030_i02_d010 1.0",
  "bbob-biobj-mixint_f030_i02_d020 1.0",
  "bbob-biobj-mixint_f030_i02_d040 1.0",
  "bbob-biobj-mixint_f030_i02_d080 1.0",
  "bbob-biobj-mixint_f030_i02_d160 1.0",
  "bbob-biobj-mixint_f030_i03_d005 1.0",
  "bbob-biobj-mixint_f030_i03_d010 1.0",
  "bbob-biobj-mixint_f030_i03_d020 1.0",
  "bbob-biobj-mixint_f030_i03_d040 1.0",
  "bbob-biobj-mixint_f030_i03_d080 1.0",
  "bbob-biobj-mixint_f030_i03_d160 1.0",
  "bbob-biobj-mixint_f030_i04_d005 1.0",
  "bbob-biobj-mixint_f030_i04_d010 1.0",
  "bbob-biobj-mixint_f030_i04_d020 1.0",
  "bbob-biobj-mixint_f030_i04_d040 1.0",
  "bbob-biobj-mixint_f030_i04_d080 1.0",
  "bbob-biobj-mixint_f030_i04_d160 1.0",
  "bbob-biobj-mixint_f030_i05_d005 1.0",
  "bbob-biobj-mixint_f030_i05_d010 1.0",
  "bbob-biobj-mixint_f030_i05_d020 1.0",
  "bbob-biobj-mixint_f030_i05_d040 1.0",
  "bbob-biobj-mixint_f030_i05_d080 1.0",
  "bbob-biobj-mixint_f030_i05_d160 1.0",
  "bbob-biobj-mixint_f030_i06_d005 1.0",
  "bbob-biobj-mixint_f030_i06_d010 1.0",
  "bbob-biobj-mixint_f030_i06_d020 1.0",
  "bbob-biobj-mixint_f030_i06_d040 1.0",
  "bbob-biobj-mixint_f030_i06_d080 1.0",
  "bbob-biobj-mixint_f030_i06_d160 1.0",
  "bbob-biobj-mixint_f030_i07_d005 1.0",
  "bbob-biobj-mixint_f030_i07_d010 1.0",
  "bbob-biobj-mixint_f030_i07_d020 1.0",
  "bbob-biobj-mixint_f030_i07_d040 1.0",
  "bbob-biobj-mixint_f030_i07_d080 1.0",
  "bbob-biobj-mixint_f030_i07_d160 1.0",
  "bbob-biobj-mixint_f030_i08_d005 1.0",
  "bbob-biobj-mixint_f030_i08_d010 1.0",
  "bbob-biobj-mixint_f030_i08_d020 1.0",
  "bbob-biobj-mixint_f030_i08_d040 1.0",
  "bbob-biobj-mixint_f030_i08_d080 1.0",
  "bbob-biobj-mixint_f030_i08_d160 1.0",
  "bbob-biobj-mixint_f030_i09_d005 1.0",
  "bbob-biobj-mixint_f030_i09_d010 1.0",
  "bbob-biobj-mixint_f030_i09_d020 1.0",
  "bbob-biobj-mixint_f030_i09_d040 1.0",
  "bbob-biobj-mixint_f030_i09_d080 1.0",
  "bbob-biobj-mixint_f030_i09_d160 1.0",
  "bbob-biobj-mixint_f030_i10_d005 1.0",
  "bbob-biobj-mixint_f030_i10_d010 1.0",
  "bbob-biobj-mixint_f030_i10_d020 1.0",
  "bbob-biobj-mixint_f030_i10_d040 1.0",
  "bbob-biobj-mixint_f030_i10_d080 1.0",
  "bbob-biobj-mixint_f030_i10_d160 1.0",
  "bbob-biobj-mixint_f030_i11_d005 1.0",
  "bbob-biobj-mixint_f030_i11_d010 1.0",
  "bbob-biobj-mixint_f030_i11_d020 1.0",
  "bbob-biobj-mixint_f030_i11_d040 1.0",
  "bbob-biobj-mixint_f030_i11_d080 1.0",
  "bbob-biobj-mixint_f030_i11_d160 1.0",
  "bbob-biobj-mixint_f030_i12_d005 1.0",
  "bbob-biobj-mixint_f030_i12_d010 1.0",
  "bbob-biobj-mixint_f030_i12_d020 1.0",
  "bbob-biobj-mixint_f030_i12_d040 1.0",
  "bbob-biobj-mixint_f030_i12_d080 1.0",
  "bbob-biobj-mixint_f030_i12_d160 1.0",
  "bbob-biobj-mixint_f030_i13_d005 1.0",
  "bbob-biobj-mixint_f030_i13_d010 1.0",
  "bbob-biobj-mixint_f030_i13_d020 1.0",
  "bbob-biobj-mixint_f030_i13_d040 1.0",
  "bbob-biobj-mixint_f030_i13_d080 1.0",
  "bbob-biobj-mixint_f030_i13_d160 1.0",
  "bbob-biobj-mixint_f030_i14_d005 1.0",
  "bbob-biobj-mixint_f030_i14_d010 1.0",
  "bbob-biobj-mixint_f030_i14_d020 1.0",
  "bbob-biobj-mixint_f030_i14_d040 1.0",
  "bbob-biobj-mixint_f030_i14_d080 1.0",
  "bbob-biobj-mixint_f030_i14_d160 1.0",
  "bbob-biobj-mixint_f030_i15_d005 1.0",
  "bbob-biobj-mixint_f030_i15_d010 1.0",
  "bbob-biobj-mixint_f030_i15_d020 1.0",
  "bbob-biobj-mixint_f030_i15_d040 1.0",
  "bbob-biobj-mixint_f030_i15_d080 1.0",
  "bbob-biobj-mixint_f030_i15_d160 1.0",
  "bbob-biobj-mixint_f031_i01_d005 1.0",
  "bbob-biobj-mixint_f031_i01_d010 1.0",
  "bbob-biobj-mixint_f031_i01_d020 1.0",
  "bbob-biobj-mixint_f031_i01_d040 1.0",
  "bbob-biobj-mixint_f031_i01_d080 1.0",
  "bbob-biobj-mixint_f031_i01_d160 1.0",
  "bbob-biobj-mixint_f031_i02_d005 1.0",
  "bbob-biobj-mixint_f031_i02_d010 1.0",
  "bbob-biobj-mixint_f031_i02_d020 1.0",
  "bbob-biobj-mixint_f031_i02_d040 1.0",
  "bbob-biobj-mixint_f031_i02_d080 1.0",
  "bbob-biobj-mixint_f031_i02_d160 1.0",
  "bbob-biobj-mixint_f031_i03_d005 1.0",
  "bbob-biobj-mixint_f031_i03_d010 1.0",
  "bbob-biobj-mixint_f031_i03_d020 1.0",
  "bbob-biobj-mixint_f031_i03_d040 1.0",
  "bbob-biobj-mixint_f031_i03_d080 1.0",
  "bbob-biobj-mixint_f031_i03_d160 1.0",
  "bbob-biobj-mixint_f031_i04_d005 1.0",
  "bbob-biobj-mixint_f031_i04_d010 1.0",
  "bbob-biobj-mixint_f031_i04_d020 1.0",
  "bbob-biobj-mixint_f031_i04_d040 1.0",
  "bbob-biobj-mixint_f031_i04_d080 1.0",
  "bbob-biobj-mixint_f031_i04_d160 1.0",
  "bbob-biobj-mixint_f031_i05_d005 1.0",
  "bbob-biobj-mixint_f031_i05_d010 1.0",
  "bbob-biobj-mixint_f031_i05_d020 1.0",
  "bbob-biobj-mixint_f031_i05_d040 1.0",
  "bbob-biobj-mixint_f031_i05_d080 1.0",
  "bbob-biobj-mixint_f031_i05_d160 1.0",
  "bbob-biobj-mixint_f031_i06_d005 1.0",
  "bbob-biobj-mixint_f031_i06_d010 1.0",
  "bbob-biobj-mixint_f031_i06_d020 1.0",
  "bbob-biobj-mixint_f031_i06_d040 1.0",
  "bbob-biobj-mixint_f031_i06_d080 1.0",
  "bbob-biobj-mixint_f031_i06_d160 1.0",
  "bbob-biobj-mixint_f031_i07_d005 1.0",
  "bbob-biobj-mixint_f031_i07_d010 1.0",
  "bbob-biobj-mixint_f031_i07_d020 1.0",
  "bbob-biobj-mixint_f031_i07_d040 1.0",
  "bbob-biobj-mixint_f031_i07_d080 1.0",
  "bbob-biobj-mixint_f031_i07_d160 1.0",
  "bbob-biobj-mixint_f031_i08_d005 1.0",
  "bbob-biobj-mixint_f031_i08_d010 1.0",
  "bbob-biobj-mixint_f031_i08_d020 1.0",
  "bbob-biobj-mixint_f031_i08_d040 1.0",
  "bbob-biobj-mixint_f031_i08_d080 1.0",
  "bbob-biobj-mixint_f031_i08_d160 1.0",
  "bbob-biobj-mixint_f031_i09_d005 1.0",
  "bbob-biobj-mixint_f031_i09_d010 1.0",
  "bbob-biobj-mixint_f031_i09_d020 1.0",
  "bbob-biobj-mixint_f031_i09_d040 1.0",
  "bbob-biobj-mixint_f031_i09_d080 1.0",
  "bbob-biobj-mixint_f031_i09_d160 1.0",
  "bbob-biobj-mixint_f031_i10_d005 1.0",
  "bbob-biobj-mixint_f031_i10_d010 1.0",
  "bbob-biobj-mixint_f031_i10_d020 1.0",
  "bbob-biobj-mixint_f031_i10_d040 1.0",
  "bbob-biobj-mixint_f031_i10_d080 1.0",
  "bbob-biobj-mixint_f031_i10_d160 1.0",
  "bbob-biobj-mixint_f031_i11_d005 1.0",
  "bbob-biobj-mixint_f031_i11_d010 1.0",
  "bbob-biobj-mixint_f031_i11_d020 1.0",
  "bbob-biobj-mixint_f031_i11_d040 1.0",
  "bbob-biobj-mixint_f031_i11_d080 1.0",
  "bbob-biobj-mixint_f031_i11_d160 1.0",
  "bbob-biobj-mixint_f031_i12_d005 1.0",
  "bbob-biobj-mixint_f031_i12_d010 1.0",
  "bbob-biobj-mixint_f031_i12_d020 1.0",
  "bbob-biobj-mixint_f031_i12_d040 1.0",
  "bbob-biobj-mixint_f031_i12_d080 1.0",
  "bbob-biobj-mixint_f031_i12_d160 1.0",
  "bbob-biobj-mixint_f031_i13_d005 1.0",
  "bbob-biobj-mixint_f031_i13_d010 1.0",
  "bbob-biobj-mixint_f031_i13_d020 1.0",
  "bbob-biobj-mixint_f031_i13_d040 1.0",
  "bbob-biobj-mixint_f031_i13_d080 1.0",
  "bbob-biobj-mixint_f031_i13_d160 1.0",
  "bbob-biobj-mixint_f031_i14_d005 1.0",
  "bbob-biobj-mixint_f031_i14_d010 1.0",
  "bbob-biobj-mixint_f031_i14_d020 1.0",
  "bbob-biobj-mixint_f031_i14_d040 1.0",
  "bbob-biobj-mixint_f031_i14_d080 1.0",
  "bbob-biobj-mixint_f031_i14_d160 1.0",
  "bbob-biobj-mixint_f031_i15_d005 1.0",
  "bbob-biobj-mixint_f031_i15_d010 1.0",
  "bbob-biobj-mixint_f031_i15_d020 1.0",
  "bbob-biobj-mixint_f031_i15_d040 1.0",
  "bbob-biobj-mixint_f031_i15_d080 1.0",
  "bbob-biobj-mixint_f031_i15_d160 1.0",
  "bbob-biobj-mixint_f032_i01_d005 1.0",
  "bbob-biobj-mixint_f032_i01_d010 1.0",
  "bbob-biobj-mixint_f032_i01_d020 1.0",
  "bbob-biobj-mixint_f032_i01_d040 1.0",
  "bbob-biobj-mixint_f032_i01_d080 1.0",
  "bbob-biobj-mixint_f032_i01_d160 1.0",
  "bbob-biobj-mixint_f032_i02_d005 1.0",
  "bbob-biobj-mixint_f032_i02_d010 1.0",
  "bbob-biobj-mixint_f032_i02_d020 1.0",
  "bbob-biobj-mixint_f032_i02_d040 1.0",
  "bbob-biobj-mixint_f032_i02_d080 1.0",
  "bbob-biobj-mixint_f032_i02_d160 1.0",
  "bbob-biobj-mixint_f032_i03_d005 1.0",
  "bbob-biobj-mixint_f032_i03_d010 1.0",
  "bbob-biobj-mixint_f032_i03_d020 1.0",
  "bbob-biobj-mixint_f032_i03_d040 1.0",
  "bbob-biobj-mixint_f032_i03_d080 1.0",
  "bbob-biobj-mixint_f032_i03_d160 1.0",
  "bbob-biobj-mixint_f032_i04_d005 1.0",
  "bbob-biobj-mixint_f032_i04_d010 1.0",
  "bbob-biobj-mixint_f032_i04_d020 1.0",
  "bbob-biobj-mixint_f032_i04_d040 1.0",
  "bbob-biobj-mixint_f032_i04_d080 1.0",
  "bbob-biobj-mixint_f032_i04_d160 1.0",
  "bbob-biobj-mixint_f032_i05_d005 1.0",
  "bbob-biobj-mixint_f032_i05_d010 1.0",
  "bbob-biobj-mixint_f032_i05_d020 1.0",
  "bbob-biobj-mixint_f032_i05_d040 1.0",
  "bbob-biobj-mixint_f032_i05_d080 1.0",
  "bbob-biobj-mixint_f032_i05_d160 1.0",
  "bbob-biobj-mixint_f032_i06_d005 1.0",
  "bbob-biobj-mixint_f032_i06_d010 1.0",
  "bbob-biobj-mixint_f032_i06_d020 1.0",
  "bbob-biobj-mixint_f032_i06_d040 1.0",
  "bbob-biobj-mixint_f032_i06_d080 1.0",
  "bbob-biobj-mixint_f032_i06_d160 1.0",
  "bbob-biobj-mixint_f032_i07_d005 1.0",
  "bbob-biobj-mixint_f032_i07_d010 1.0",
  "bbob-biobj-mixint_f032_i07_d020 1.0",
  "bbob-biobj-mixint_f032_i07_d040 1.0",
  "bbob-biobj-mixint_f032_i07_d080 1.0",
  "bbob-biobj-mixint_f032_i07_d160 1.0",
  "bbob-biobj-mixint_f032_i08_d005 1.0",
  "bbob-biobj-mixint_f032_i08_d010 1.0",
  "bbob-biobj-mixint_f032_i08_d020 1.0",
  "bbob-biobj-mixint_f032_i08_d040 1.0",
  "bbob-biobj-mixint_f032_i08_d080 1.0",
  "bbob-biobj-mixint_f032_i08_d160 1.0",
  "bbob-biobj-mixint_f032_i09_d005 1.0",
  "bbob-biobj-mixint_f032_i09_d010 1.0",
  "bbob-biobj-mixint_f032_i09_d020 1.0",
  "bbob-biobj-mixint_f032_i09_d040 1.0",
  "bbob-biobj-mixint_f032_i09_d080 1.0",
  "bbob-biobj-mixint_f032_i09_d160 1.0",
  "bbob-biobj-mixint_f032_i10_d005 1.0",
  "bbob-biobj-mixint_f032_i10_d010 1.0",
  "bbob-biobj-mixint_f032_i10_d020 1.0",
  "bbob-biobj-mixint_f032_i10_d040 1.0",
  "bbob-biobj-mixint_f032_i10_d080 1.0",
  "bbob-biobj-mixint_f032_i10_d160 1.0",
  "bbob-biobj-mixint_f032_i11_d005 1.0",
  "bbob-biobj-mixint_f032_i11_d010 1.0",
  "bbob-biobj-mixint_f032_i11_d020 1.0",
  "bbob-biobj-mixint_f032_i11_d040 1.0",
  "bbob-biobj-mixint_f032_i11_d080 1.0",
  "bbob-biobj-mixint_f032_i11_d160 1.0",
  "bbob-biobj-mixint_f032_i12_d005 1.0",
  "bbob-biobj-mixint_f032_i12_d010 1.0",
  "bbob-biobj-mixint_f032_i12_d020 1.0",
  "bbob-biobj-mixint_f032_i12_d040 1.0",
  "bbob-biobj-mixint_f032_i12_d080 1.0",
  "bbob-biobj-mixint_f032_i12_d160 1.0",
  "bbob-biobj-mixint_f032_i13_d005 1.0",
  "bbob-biobj-mixint_f032_i13_d010 1.0",
  "bbob-biobj-mixint_f032_i13_d020 1.0",
  "bbob-biobj-mixint_f032_i13_d040 1.0",
  "bbob-biobj-mixint_f032_i13_d080 1.0",
  "bbob-biobj-mixint_f032_i13_d160 1.0",
  "bbob-biobj-mixint_f032_i14_d005 1.0",
  "bbob-biobj-mixint_f032_i14_d010 1.0",
  "bbob-biobj-mixint_f032_i14_d020 1.0",
  "bbob-biobj-mixint_f032_i14_d040 1.0",
  "bbob-biobj-mixint_f032_i14_d080 1.0",
  "bbob-biobj-mixint_f032_i14_d160 1.0",
  "bbob-biobj-mixint_f032_i15_d005 1.0",
  "bbob-biobj-mixint_f032_i15_d010 1.0",
  "bbob-biobj-mixint_f032_i15_d020 1.0",
  "bbob-biobj-mixint_f032_i15_d040 1.0",
  "bbob-biobj-mixint_f032_i15_d080 1.0",
  "bbob-biobj-mixint_f032_i15_d160 1.0",
  "bbob-biobj-mixint_f033_i01_d005 1.0",
  "bbob-biobj-mixint_f033_i01_d010 1.0",
  "bbob-biobj-mixint_f033_i01_d020 1.0",
  "bbob-biobj-mixint_f033_i01_d040 1.0",
  "bbob-biobj-mixint_f033_i01_d080 1.0",
  "bbob-biobj-mixint_f033_i01_d160 1.0",
  "bbob-biobj-mixint_f033_i02_d005 1.0",
  "bbob-biobj-mixint_f033_i02_d010 1.0",
  "bbob-biobj-mixint_f033_i02_d020 1.0",
  "bbob-biobj-mixint_f033_i02_d040 1.0",
  "bbob-biobj-mixint_f033_i02_d080 1.0",
  "bbob-biobj-mixint_f033_i02_d160 1.0",
  "bbob-biobj-mixint_f033_i03_d005 1.0",
  "bbob-biobj-mixint_f033_i03_d010 1.0",
  "bbob-biobj-mixint_f033_i03_d020 1.0",
  "bbob-biobj-mixint_f033_i03_d040 1.0",
  "bbob-biobj-mixint_f033_i03_d080 1.0",
  "bbob-biobj-mixint_f033_i03_d160 1.0",
  "bbob-biobj-mixint_f033_i04_d005 1.0",
  "bbob-biobj-mixint_f033_i04_d010 1.0",
  "bbob-biobj-mixint_f033_i04_d020 1.0",
  "bbob-biobj-mixint_f033_i04_d040 1.0",
  "bbob-biobj-mixint_f033_i04_d080 1.0",
  "bbob-biobj-mixint_f033_i04_d160 1.0",
  "bbob-biobj-mixint_f033_i05_d005 1.0",
  "bbob-biobj-mixint_f033_i05_d010 1.0",
  "bbob-biobj-mixint_f033_i05_d020 1.0",
  "bbob-biobj-mixint_f033_i05_d040 1.0",
  "bbob-biobj-mixint_f033_i05_d080 1.0",
  "bbob-biobj-mixint_f033_i05_d160 1.0",
  "bbob-biobj-mixint_f033_i06_d005 1.0",
  "bbob-biobj-mixint_f033_i06_d010 1.0",
  "bbob-biobj-mixint_f033_i06_d020 1.0",
  "bbob-biobj-mixint_f033_i06_d040 1.0",
  "bbob-biobj-mixint_f033_i06_d080 1.0",
  "bbob-biobj-mixint_f033_i06_d160 1.0",
  "bbob-biobj-mixint_f033_i07_d005 1.0",
  "bbob-biobj-mixint_f033_i07_d010 1.0",
  "bbob-biobj-mixint_f033_i07_d020 1.0",
  "bbob-biobj-mixint_f033_i07_d040 1.0",
  "bbob-biobj-mixint_f033_i07_d080 1.0",
  "bbob-biobj-mixint_f033_i07_d160 1.0",
  "bbob-biobj-mixint_f033_i08_d005 1.0",
  "bbob-biobj-mixint_f033_i08_d010 1.0",
  "bbob-biobj-mixint_f033_i08_d020 1.0",
  "bbob-biobj-mixint_f033_i08_d040 1.0",
  "bbob-biobj-mixint_f033_i08_d080 1.0",
  "bbob-biobj-mixint_f033_i08_d160 1.0",
  "bbob-biobj-mixint_f033_i09_d005 1.0",
  "bbob-biobj-mixint_f033_i09_d010 1.0",
  "bbob-biobj-mixint_f033_i09_d020 1.0",
  "bbob-biobj-mixint_f033_i09_d040 1.0",
  "bbob-biobj-mixint_f033_i09_d080 1.0",
  "bbob-biobj-mixint_f033_i09_d160 1.0",
  "bbob-biobj-mixint_f033_i10_d005 1.0",
  "bbob-biobj-mixint_f033_i10_d010 1.0",
  "bbob-biobj-mixint_f033_i10_d020 1.0",
  "bbob-biobj-mixint_f033_i10_d040 1.0",
  "bbob-biobj-mixint_f033_i10_d080 1.0",
  "bbob-biobj-mixint_f033_i10_d160 1.0",
  "bbob-biobj-mixint_f033_i11_d005 1.0",
  "bbob-biobj-mixint_f033_i11_d010 1.0",
  "bbob-biobj-mixint_f033_i11_d020 1.0",
  "bbob-biobj-mixint_f033_i11_d040 1.0",
  "bbob-biobj-mixint_f033_i11_d080 1.0",
  "bbob-biobj-mixint_f033_i11_d160 1.0",
  "bbob-biobj-mixint_f033_i12_d005 1.0",
  "bbob-biobj-mixint_f033_i12_d010 1.0",
  "bbob-biobj-mixint_f033_i12_d020 1.0",
  "bbob-biobj-mixint_f033_i12_d040 1.0",
  "bbob-biobj-mixint_f033_i12_d080 1.0",
  "bbob-biobj-mixint_f033_i12_d160 1.0",
  "bbob-biobj-mixint_f033_i13_d005 1.0",
  "bbob-biobj-mixint_f033_i13_d010 1.0",
  "bbob-biobj-mixint_f033_i13_d020 1.0",
  "bbob-biobj-mixint_f033_i13_d040 1.0",
  "bbob-biobj-mixint_f033_i13_d080 1.0",
  "bbob-biobj-mixint_f033_i13_d160 1.0",
  "bbob-biobj-mixint_f033_i14_d005 1.0",
  "bbob-biobj-mixint_f033_i14_d010 1.0",
  "bbob-biobj-mixint_f033_i14_d020 1.0",
  "bbob-biobj-mixint_f033_i14_d040 1.0",
  "bbob-biobj-mixint_f033_i14_d080 1.0",
  "bbob-biobj-mixint_f033_i14_d160 1.0",
  "bbob-biobj-mixint_f033_i15_d005 1.0",
  "bbob-biobj-mixint_f033_i15_d010 1.0",
  "bbob-biobj-mixint_f033_i15_d020 1.0",
  "bbob-biobj-mixint_f033_i15_d040 1.0",
  "bbob-biobj-mixint_f033_i15_d080 1.0",
  "bbob-biobj-mixint_f033_i15_d160 1.0",
  "bbob-biobj-mixint_f034_i01_d005 1.0",
  "bbob-biobj-mixint_f034_i01_d010 1.0",
  "bbob-biobj-mixint_f034_i01_d020 1.0",
  "bbob-biobj-mixint_f034_i01_d040 1.0",
  "bbob-biobj-mixint_f034_i01_d080 1.0",
  "bbob-biobj-mixint_f034_i01_d160 1.0",
  "bbob-biobj-mixint_f034_i02_d005 1.0",
  "bbob-biobj-mixint_f034_i02_d010 1.0",
  "bbob-biobj-mixint_f034_i02_d020 1.0",
  "bbob-biobj-mixint_f034_i02_d040 1.0",
  "bbob-biobj-mixint_f034_i02_d080 1.0",
  "bbob-biobj-mixint_f034_i02_d160 1.0",
  "bbob-biobj-mixint_f034_i03_d005 1.0",
  "bbob-biobj-mixint_f034_i03_d010 1.0",
  "bbob-biobj-mixint_f034_i03_d020 1.0",
  "bbob-biobj-mixint_f034_i03_d040 1.0",
  "bbob-biobj-mixint_f034_i03_d080 1.0",
  "bbob-biobj-mixint_f034_i03_d160 1.0",
  "bbob-biobj-mixint_f034_i04_d005 1.0",
  "bbob-biobj-mixint_f034_i04_d010 1.0",
  "bbob-biobj-mixint_f034_i04_d020 1.0",
  "bbob-biobj-mixint_f034_i04_d040 1.0",
  "bbob-biobj-mixint_f034_i04_d080 1.0",
  "bbob-biobj-mixint_f034_i04_d160 1.0",
  "bbob-biobj-mixint_f034_i05_d005 1.0",
  "bbob-biobj-mixint_f034_i05_d010 1.0",
  "bbob-biobj-mixint_f034_i05_d020 1.0",
  "bbob-biobj-mixint_f034_i05_d040 1.0",
  "bbob-biobj-mixint_f034_i05_d080 1.0",
  "bbob-biobj-mixint_f034_i05_d160 1.0",
  "bbob-biobj-mixint_f034_i06_d005 1.0",
  "bbob-biobj-mixint_f034_i06_d010 1.0",
  "bbob-biobj-mixint_f034_i06_d020 1.0",
  "bbob-biobj-mixint_f034_i06_d040 1.0",
  "bbob-biobj-mixint_f034_i06_d080 1.0",
  "bbob-biobj-mixint_f034_i06_d160 1.0",
  "bbob-biobj-mixint_f034_i07_d005 1.0",
  "bbob-biobj-mixint_f034_i07_d010 1.0",
  "bbob-biobj-mixint_f034_i07_d020 1.0",
  "bbob-biobj-mixint_f034_i07_d040 1.0",
  "bbob-biobj-mixint_f034_i07_d080 1.0",
  "bbob-biobj-mixint_f034_i07_d160 1.0",
  "bbob-biobj-mixint_f034_i08_d005 1.0",
  "bbob-biobj-mixint_f034_i08_d010 1.0",
  "bbob-biobj-mixint_f034_i08_d020 1.0",
  "bbob-biobj-mixint_f034_i08_d040 1.0",
  "bbob-biobj-mixint_f034_i08_d080 1.0",
  "bbob-biobj-mixint_f034_i08_d160 1.0",
  "bbob-biobj-mixint_f034_i09_d005 1.0",
  "bbob-biobj-mixint_f034_i09_d010 1.0",
  "bbob-biobj-mixint_f034_i09_d020 1.0",
  "bbob-biobj-mixint_f034_i09_d040 1.0",
  "bbob-biobj-mixint_f034_i09_d080 1.0",
  "bbob-biobj-mixint_f034_i09_d160 1.0",
  "bbob-biobj-mixint_f034_i10_d005 1.0",
  "bbob-biobj-mixint_f034_i10_d010 1.0",
  "bbob-biobj-mixint_f034_i10_d020 1.0",
  "bbob-biobj-mixint_f034_i10_d040 1.0",
  "bbob-biobj-mixint_f034_i10_d080 1.0",
  "bbob-biobj-mixint_f034_i10_d160 1.0",
  "bbob-biobj-mixint_f034_i11_d005 1.0",
  "bbob-biobj-mixint_f034_i11_d010 1.0",
  "bbob-biobj-mixint_f034_i11_d020 1.0",
  "bbob-biobj-mixint_f034_i11_d040 1.0",
  "bbob-biobj-mixint_f034_i11_d080 1.0",
  "bbob-biobj-mixint_f034_i11_d160 1.0",
  "bbob-biobj-mixint_f034_i12_d005 1.0",
  "bbob-biobj-mixint_f034_i12_d010 1.0",
  "bbob-biobj-mixint_f034_i12_d020 1.0",
  "bbob-biobj-mixint_f034_i12_d040 1.0",
  "bbob-biobj-mixint_f034_i12_d080 1.0",
  "bbob-biobj-mixint_f034_i12_d160 1.0",
  "bbob-biobj-mixint_f034_i13_d005 1.0",
  "bbob-biobj-mixint_f034_i13_d010 1.0",
  "bbob-biobj-mixint_f034_i13_d020 1.0",
  "bbob-biobj-mixint_f034_i13_d040 1.0",
  "bbob-biobj-mixint_f034_i13_d080 1.0",
  "bbob-biobj-mixint_f034_i13_d160 1.0",
  "bbob-biobj-mixint_f034_i14_d005 1.0",
  "bbob-biobj-mixint_f034_i14_d010 1.0",
  "bbob-biobj-mixint_f034_i14_d020 1.0",
  "bbob-biobj-mixint_f034_i14_d040 1.0",
  "bbob-biobj-mixint_f034_i14_d080 1.0",
  "bbob-biobj-mixint_f034_i14_d160 1.0",
  "bbob-biobj-mixint_f034_i15_d005 1.0",
  "bbob-biobj-mixint_f034_i15_d010 1.0",
  "bbob-biobj-mixint_f034_i15_d020 1.0",
  "bbob-biobj-mixint_f034_i15_d040 1.0",
  "bbob-biobj-mixint_f034_i15_d080 1.0",
  "bbob-biobj-mixint_f034_i15_d160 1.0",
  "bbob-biobj-mixint_f035_i01_d005 1.0",
  "bbob-biobj-mixint_f035_i01_d010 1.0",
  "bbob-biobj-mixint_f035_i01_d020 1.0",
  "bbob-biobj-mixint_f035_i01_d040 1.0",
  "bbob-biobj-mixint_f035_i01_d080 1.0",
  "bbob-biobj-mixint_f035_i01_d160 1.0",
  "bbob-biobj-mixint_f035_i02_d005 1.0",
  "bbob-biobj-mixint_f035_i02_d010 1.0",
  "bbob-biobj-mixint_f035_i02_d020 1.0",
  "bbob-biobj-mixint_f035_i02_d040 1.0",
  "bbob-biobj-mixint_f035_i02_d080 1.0",
  "bbob-biobj-mixint_f035_i02_d160 1.0",
  "bbob-biobj-mixint_f035_i03_d005 1.0",
  "bbob-biobj-mixint_f035_i03_d010 1.0",
  "bbob-biobj-mixint_f035_i03_d020 1.0",
  "bbob-biobj-mixint_f035_i03_d040 1.0",
  "bbob-biobj-mixint_f035_i03_d080 1.0",
  "bbob-biobj-mixint_f035_i03_d160 1.0",
  "bbob-biobj-mixint_f035_i04_d005 1.0",
  "bbob-biobj-mixint_f035_i04_d010 1.0",
  "bbob-biobj-mixint_f035_i04_d020 1.0",
  "bbob-biobj-mixint_f035_i04_d040 1.0",
  "bbob-biobj-mixint_f035_i04_d080 1.0",
  "bbob-biobj-mixint_f035_i04_d160 1.0",
  "bbob-biobj-mixint_f035_i05_d005 1.0",
  "bbob-biobj-mixint_f035_i05_d010 1.0",
  "bbob-biobj-mixint_f035_i05_d020 1.0",
  "bbob-biobj-mixint_f035_i05_d040 1.0",
  "bbob-biobj-mixint_f035_i05_d080 1.0",
  "bbob-biobj-mixint_f035_i05_d160 1.0",
  "bbob-biobj-mixint_f035_i06_d005 1.0",
  "bbob-biobj-mixint_f035_i06_d010 1.0",
  "bbob-biobj-mixint_f035_i06_d020 1.0",
  "bbob-biobj-mixint_f035_i06_d040 1.0",
  "bbob-biobj-mixint_f035_i06_d080 1.0",
  "bbob-biobj-mixint_f035_i06_d160 1.0",
  "bbob-biobj-mixint_f035_i07_d005 1.0",
  "bbob-biobj-mixint_f035_i07_d010 1.0",
  "bbob-biobj-mixint_f035_i07_d020 1.0",
  "bbob-biobj-mixint_f035_i07_d040 1.0",
  "bbob-biobj-mixint_f035_i07_d080 1.0",
  "bbob-biobj-mixint_f035_i07_d160 1.0",
  "bbob-biobj-mixint_f035_i08_d005 1.0",
  "bbob-biobj-mixint_f035_i08_d010 1.0",
  "bbob-biobj-mixint_f035_i08_d020 1.0",
  "bbob-biobj-mixint_f035_i08_d040 1.0",
  "bbob-biobj-mixint_f035_i08_d080 1.0",
  "bbob-biobj-mixint_f035_i08_d160 1.0",
  "bbob-biobj-mixint_f035_i09_d005 1.0",
  "bbob-biobj-mixint_f035_i09_d010 1.0",
  "bbob-biobj-mixint_f035_i09_d020 1.0",
  "bbob-biobj-mixint_f035_i09_d040 1.0",
  "bbob-biobj-mixint_f035_i09_d080 1.0",
  "bbob-biobj-mixint_f035_i09_d160 1.0",
  "bbob-biobj-mixint_f035_i10_d005 1.0",
  "bbob-biobj-mixint_f035_i10_d010 1.0",
  "bbob-biobj-mixint_f035_i10_d020 1.0",
  "bbob-biobj-mixint_f035_i10_d040 1.0",
  "bbob-biobj-mixint_f035_i10_d080 1.0",
  "bbob-biobj-mixint_f035_i10_d160 1.0",
  "bbob-biobj-mixint_f035_i11_d005 1.0",
  "bbob-biobj-mixint_f035_i11_d010 1.0",
  "bbob-biobj-mixint_f035_i11_d020 1.0",
  "bbob-biobj-mixint_f035_i11_d040 1.0",
  "bbob-biobj-mixint_f035_i11_d080 1.0",
  "bbob-biobj-mixint_f035_i11_d160 1.0",
  "bbob-biobj-mixint_f035_i12_d005 1.0",
  "bbob-biobj-mixint_f035_i12_d010 1.0",
  "bbob-biobj-mixint_f035_i12_d020 1.0",
  "bbob-biobj-mixint_f035_i12_d040 1.0",
  "bbob-biobj-mixint_f035_i12_d080 1.0",
  "bbob-biobj-mixint_f035_i12_d160 1.0",
  "bbob-biobj-mixint_f035_i13_d005 1.0",
  "bbob-biobj-mixint_f035_i13_d010 1.0",
  "bbob-biobj-mixint_f035_i13_d020 1.0",
  "bbob-biobj-mixint_f035_i13_d040 1.0",
  "bbob-biobj-mixint_f035_i13_d080 1.0",
  "bbob-biobj-mixint_f035_i13_d160 1.0",
  "bbob-biobj-mixint_f035_i14_d005 1.0",
  "bbob-biobj-mixint_f035_i14_d010 1.0",
  "bbob-biobj-mixint_f035_i14_d020 1.0",
  "bbob-biobj-mixint_f035_i14_d040 1.0",
  "bbob-biobj-mixint_f035_i14_d080 1.0",
  "bbob-biobj-mixint_f035_i14_d160 1.0",
  "bbob-biobj-mixint_f035_i15_d005 1.0",
  "bbob-biobj-mixint_f035_i15_d010 1.0",
  "bbob-biobj-mixint_f035_i15_d020 1.0",
  "bbob-biobj-mixint_f035_i15_d040 1.0",
  "bbob-biobj-mixint_f035_i15_d080 1.0",
  "bbob-biobj-mixint_f035_i15_d160 1.0",
  "bbob-biobj-mixint_f036_i01_d005 1.0",
  "bbob-biobj-mixint_f036_i01_d010 1.0",
  "bbob-biobj-mixint_f036_i01_d020 1.0",
  "bbob-biobj-mixint_f036_i01_d040 1.0",
  "bbob-biobj-mixint_f036_i01_d080 1.0",
  "bbob-biobj-mixint_f036_i01_d160 1.0",
  "bbob-biobj-mixint_f036_i02_d005 1.0",
  "bbob-biobj-mixint_f036_i02_d010 1.0",
  "bbob-biobj-mixint_f036_i02_d020 1.0",
  "bbob-biobj-mixint_f036_i02_d040 1.0",
  "bbob-biobj-mixint_f036_i02_d080 1.0",
  "bbob-biobj-mixint_f036_i02_d160 1.0",
  "bbob-biobj-mixint_f036_i03_d005 1.0",
  "bbob-biobj-mixint_f036_i03_d010 1.0",
  "bbob-biobj-mixint_f036_i03_d020 1.0",
  "bbob-biobj-mixint_f036_i03_d040 1.0",
  "bbob-biobj-mixint_f036_i03_d080 1.0",
  "bbob-biobj-mixint_f036_i03_d160 1.0",
  "bbob-biobj-mixint_f036_i04_d005 1.0",
  "bbob-biobj-mixint_f036_i04_d010 1.0",
  "bbob-biobj-mixint_f036_i04_d020 1.0",
  "bbob-biobj-mixint_f036_i04_d040 1.0",
  "bbob-biobj-mixint_f036_i04_d080 1.0",
  "bbob-biobj-mixint_f036_i04_d160 1.0",
  "bbob-biobj-mixint_f036_i05_d005 1.0",
  "bbob-biobj-mixint_f036_i05_d010 1.0",
  "bbob-biobj-mixint_f036_i05_d020 1.0",
  "bbob-biobj-mixint_f036_i05_d040 1.0",
  "bbob-biobj-mixint_f036_i05_d080 1.0",
  "bbob-biobj-mixint_f036_i05_d160 1.0",
  "bbob-biobj-mixint_f036_i06_d005 1.0",
  "bbob-biobj-mixint_f036_i06_d010 1.0",
  "bbob-biobj-mixint_f036_i06_d020 1.0",
  "bbob-biobj-mixint_f036_i06_d040 1.0",
  "bbob-biobj-mixint_f036_i06_d080 1.0",
  "bbob-biobj-mixint_f036_i06_d160 1.0",
  "bbob-biobj-mixint_f036_i07_d005 1.0",
  "bbob-biobj-mixint_f036_i07_d010 1.0",
  "bbob-biobj-mixint_f036_i07_d020 1.0",
  "bbob-biobj-mixint_f036_i07_d040 1.0",
  "bbob-biobj-mixint_f036_i07_d080 1.0",
  "bbob-biobj-mixint_f036_i07_d160 1.0",
  "bbob-biobj-mixint_f036_i08_d005 1.0",
  "bbob-biobj-mixint_f036_i08_d010 1.0",
  "bbob-biobj-mixint_f036_i08_d020 1.0",
  "bbob-biobj-mixint_f036_i08_d040 1.0",
  "bbob-biobj-mixint_f036_i08_d080 1.0",
  "bbob-biobj-mixint_f036_i08_d160 1.0",
  "bbob-biobj-mixint_f036_i09_d005 1.0",
  "bbob-biobj-mixint_f036_i09_d010 1.0",
  "bbob-biobj-mixint_f036_i09_d020 1.0",
  "bbob-biobj-mixint_f036_i09_d040 1.0",
  "bbob-biobj-mixint_f036_i09_d080 1.0",
  "bbob-biobj-mixint_f036_i09_d160 1.0",
  "bbob-biobj-mixint_f036_i10_d005 1.0",
  "bbob-biobj-mixint_f036_i10_d010 1.0",
  "bbob-biobj-mixint_f036_i10_d020 1.0",
  "bbob-biobj-mixint_f036_i10_d040 1.0",
  "bbob-biobj-mixint_f036_i10_d080 1.0",
  "bbob-biobj-mixint_f036_i10_d160 1.0",
  "bbob-biobj-mixint_f036_i11_d005 1.0",
  "bbob-biobj-mixint_f036_i11_d010 1.0",
  "bbob-biobj-mixint_f036_i11_d020 1.0",
  "bbob-biobj-mixint_f036_i11_d040 1.0",
  "bbob-biobj-mixint_f036_i11_d080 1.0",
  "bbob-biobj-mixint_f036_i11_d160 1.0",
  "bbob-biobj-mixint_f036_i12_d005 1.0",
  "bbob-biobj-mixint_f036_i12_d010 1.0",
  "bbob-biobj-mixint_f036_i12_d020 1.0",
  "bbob-biobj-mixint_f036_i12_d040 1.0",
  "bbob-biobj-mixint_f036_i12_d080 1.0",
  "bbob-biobj-mixint_f036_i12_d160 1.0",
  "bbob-biobj-mixint_f036_i13_d005 1.0",
  "bbob-biobj-mixint_f036_i13_d010 1.0",
  "bbob-biobj-mixint_f036_i13_d020 1.0",
  "bbob-biobj-mixint_f036_i13_d040 1.0",
  "bbob-biobj-mixint_f036_i13_d080 1.0",
  "bbob-biobj-mixint_f036_i13_d160 1.0",
  "bbob-biobj-mixint_f036_i14_d005 1.0",
  "bbob-biobj-mixint_f036_i14_d010 1.0",
  "bbob-biobj-mixint_f036_i14_d020 1.0",
  "bbob-biobj-mixint_f036_i14_d040 1.0",
  "bbob-biobj-mixint_f036_i14_d080 1.0",
  "bbob-biobj-mixint_f036_i14_d160 1.0",
  "bbob-biobj-mixint_f036_i15_d005 1.0",
  "bbob-biobj-mixint_f036_i15_d010 1.0",
  "bbob-biobj-mixint_f036_i15_d020 1.0",
  "bbob-biobj-mixint_f036_i15_d040 1.0",
  "bbob-biobj-mixint_f036_i15_d080 1.0",
  "bbob-biobj-mixint_f036_i15_d160 1.0",
  "bbob-biobj-mixint_f037_i01_d005 1.0",
  "bbob-biobj-mixint_f037_i01_d010 1.0",
  "bbob-biobj-mixint_f037_i01_d020 1.0",
  "bbob-biobj-mixint_f037_i01_d040 1.0",
  "bbob-biobj-mixint_f037_i01_d080 1.0",
  "bbob-biobj-mixint_f037_i01_d160 1.0",
  "bbob-biobj-mixint_f037_i02_d005 1.0",
  "bbob-biobj-mixint_f037_i02_d010 1.0",
  "bbob-biobj-mixint_f037_i02_d020 1.0",
  "bbob-biobj-mixint_f037_i02_d040 1.0",
  "bbob-biobj-mixint_f037_i02_d080 1.0",
  "bbob-biobj-mixint_f037_i02_d160 1.0",
  "bbob-biobj-mixint_f037_i03_d005 1.0",
  "bbob-biobj-mixint_f037_i03_d010 1.0",
  "bbob-biobj-mixint_f037_i03_d020 1.0",
  "bbob-biobj-mixint_f037_i03_d040 1.0",
  "bbob-biobj-mixint_f037_i03_d080 1.0",
  "bbob-biobj-mixint_f037_i03_d160 1.0",
  "bbob-biobj-mixint_f037_i04_d005 1.0",
  "bbob-biobj-mixint_f037_i04_d010 1.0",
  "bbob-biobj-mixint_f037_i04_d020 1.0",
  "bbob-biobj-mixint_f037_i04_d040 1.0",
  "bbob-biobj-mixint_f037_i04_d080 1.0",
  "bbob-biobj-mixint_f037_i04_d160 1.0",
  "bbob-biobj-mixint_f037_i05_d005 1.0",
  "bbob-biobj-mixint_f037_i05_d010 1.0",
  "bbob-biobj-mixint_f037_i05_d020 1.0",
  "bbob-biobj-mixint_f037_i05_d040 1.0",
  "bbob-biobj-mixint_f037_i05_d080 1.0",
  "bbob-biobj-mixint_f037_i05_d160 1.0",
  "bbob-biobj-mixint_f037_i06_d005 1.0",
  "bbob-biobj-mixint_f037_i06_d010 1.0",
  "bbob-biobj-mixint_f037_i06_d020 1.0",
  "bbob-biobj-mixint_f037_i06_d040 1.0",
  "bbob-biobj-mixint_f037_i06_d080 1.0",
  "bbob-biobj-mixint_f037_i06_d160 1.0",
  "bbob-biobj-mixint_f037_i07_d005 1.0",
  "bbob-biobj-mixint_f037_i07_d010 1.0",
  "bbob-biobj-mixint_f037_i07_d020 1.0",
  "bbob-biobj-mixint_f037_i07_d040 1.0",
  "bbob-biobj-mixint_f037_i07_d080 1.0",
  "bbob-biobj-mixint_f037_i07_d160 1.0",
  "bbob-biobj-mixint_f037_i08_d005 1.0",
  "bbob-biobj-mixint_f037_i08_d010 1.0",
  "bbob-biobj-mixint_f037_i08_d020 1.0",
  "bbob-biobj-mixint_f037_i08_d040 1.0",
  "bbob-biobj-mixint_f037_i08_d080 1.0",
  "bbob-biobj-mixint_f037_i08_d160 1.0",
  "bbob-biobj-mixint_f037_i09_d005 1.0",
  "bbob-biobj-mixint_f037_i09_d010 1.0",
  "bbob-biobj-mixint_f037_i09_d020 1.0",
  "bbob-biobj-mixint_f037_i09_d040 1.0",
  "bbob-biobj-mixint_f037_i09_d080 1.0",
  "bbob-biobj-mixint_f037_i09_d160 1.0",
  "bbob-biobj-mixint_f037_i10_d005 1.0",
  "bbob-biobj-mixint_f037_i10_d010 1.0",
  "bbob-biobj-mixint_f037_i10_d020 1.0",
  "bbob-biobj-mixint_f037_i10_d040 1.0",
  "bbob-biobj-mixint_f037_i10_d080 1.0",
  "bbob-biobj-mixint_f037_i10_d160 1.0",
  "bbob-biobj-mixint_f037_i11_d005 1.0",
  "bbob-biobj-mixint_f037_i11_d010 1.0",
  "bbob-biobj-mixint_f037_i11_d020 1.0",
  "bbob-biobj-mixint_f037_i11_d040 1.0",
  "bbob-biobj-mixint_f037_i11_d080 1.0",
  "bbob-biobj-mixint_f037_i11_d160 1.0",
  "bbob-biobj-mixint_f037_i12_d005 1.0",
  "bbob-biobj-mixint_f037_i12_d010 1.0",
  "bbob-biobj-mixint_f037_i12_d020 1.0",
  "bbob-biobj-mixint_f037_i12_d040 1.0",
  "bbob-biobj-mixint_f037_i12_d080 1.0",
  "bbob-biobj-mixint_f037_i12_d160 1.0",
  "bbob-biobj-mixint_f037_i13_d005 1.0",
  "bbob-biobj-mixint_f037_i13_d010 1.0",
  "bbob-biobj-mixint_f037_i13_d020 1.0",
  "bbob-biobj-mixint_f037_i13_d040 1.0",
  "bbob-biobj-mixint_f037_i13_d080 1.0",
  "bbob-biobj-mixint_f037_i13_d160 1.0",
  "bbob-biobj-mixint_f037_i14_d005 1.0",
  "bbob-biobj-mixint_f037_i14_d010 1.0",
  "bbob-biobj-mixint_f037_i14_d020 1.0",
  "bbob-biobj-mixint_f037_i14_d040 1.0",
  "bbob-biobj-mixint_f037_i14_d080 1.0",
  "bbob-biobj-mixint_f037_i14_d160 1.0",
  "bbob-biobj-mixint_f037_i15_d005 1.0",
  "bbob-biobj-mixint_f037_i15_d010 1.0",
  "bbob-biobj-mixint_f037_i15_d020 1.0",
  "bbob-biobj-mixint_f037_i15_d040 1.0",
  "bbob-biobj-mixint_f037_i15_d080 1.0",
  "bbob-biobj-mixint_f037_i15_d160 1.0",
  "bbob-biobj-mixint_f038_i01_d005 1.0",
  "bbob-biobj-mixint_f038_i01_d010 1.0",
  "bbob-biobj-mixint_f038_i01_d020 1.0",
  "bbob-biobj-mixint_f038_i01_d040 1.0",
  "bbob-biobj-mixint_f038_i01_d080 1.0",
  "bbob-biobj-mixint_f038_i01_d160 1.0",
  "bbob-biobj-mixint_f038_i02_d005 1.0",
  "bbob-biobj-mixint_f038_i02_d010 1.0",
  "bbob-biobj-mixint_f038_i02_d020 1.0",
  "bbob-biobj-mixint_f038_i02_d040 1.0",
  "bbob-biobj-mixint_f038_i02_d080 1.0",
  "bbob-biobj-mixint_f038_i02_d160 1.0",
  "bbob-biobj-mixint_f038_i03_d005 1.0",
  "bbob-biobj-mixint_f038_i03_d010 1.0",
  "bbob-biobj-mixint_f038_i03_d020 1.0",
  "bbob-biobj-mixint_f038_i03_d040 1.0",
  "bbob-biobj-mixint_f038_i03_d080 1.0",
  "bbob-biobj-mixint_f038_i03_d160 1.0",
  "bbob-biobj-mixint_f038_i04_d005 1.0",
  "bbob-biobj-mixint_f038_i04_d010 1.0",
  "bbob-biobj-mixint_f038_i04_d020 1.0",
  "bbob-biobj-mixint_f038_i04_d040 1.0",
  "bbob-biobj-mixint_f038_i04_d080 1.0",
  "bbob-biobj-mixint_f038_i04_d160 1.0",
  "bbob-biobj-mixint_f038_i05_d005 1.0",
  "bbob-biobj-mixint_f038_i05_d010 1.0",
  "bbob-biobj-mixint_f038_i05_d020 1.0",
  "bbob-biobj-mixint_f038_i05_d040 1.0",
  "bbob-biobj-mixint_f038_i05_d080 1.0",
  "bbob-biobj-mixint_f038_i05_d160 1.0",
  "bbob-biobj-mixint_f038_i06_d005 1.0",
  "bbob-biobj-mixint_f038_i06_d010 1.0",
  "bbob-biobj-mixint_f038_i06_d020 1.0",
  "bbob-biobj-mixint_f038_i06_d040 1.0",
  "bbob-biobj-mixint_f038_i06_d080 1.0",
  "bbob-biobj-mixint_f038_i06_d160 1.0",
  "bbob-biobj-mixint_f038_i07_d005 1.0",
  "bbob-biobj-mixint_f038_i07_d010 1.0",
  "bbob-biobj-mixint_f038_i07_d020 1.0",
  "bbob-biobj-mixint_f038_i07_d040 1.0",
  "bbob-biobj-mixint_f038_i07_d080 1.0",
  "bbob-biobj-mixint_f038_i07_d160 1.0",
  "bbob-biobj-mixint_f038_i08_d005 1.0",
  "bbob-biobj-mixint_f038_i08_d010 1.0",
  "bbob-biobj-mixint_f038_i08_d020 1.0",
  "bbob-biobj-mixint_f038_i08_d040 1.0",
  "bbob-biobj-mixint_f038_i08_d080 1.0",
  "bbob-biobj-mixint_f038_i08_d160 1.0",
  "bbob-biobj-mixint_f038_i09_d005 1.0",
  "bbob-biobj-mixint_f038_i09_d010 1.0",
  "bbob-biobj-mixint_f038_i09_d020 1.0",
  "bbob-biobj-mixint_f038_i09_d040 1.0",
  "bbob-biobj-mixint_f038_i09_d080 1.0",
  "bbob-biobj-mixint_f038_i09_d160 1.0",
  "bbob-biobj-mixint_f038_i10_d005 1.0",
  "bbob-biobj-mixint_f038_i10_d010 1.0",
  "bbob-biobj-mixint_f038_i10_d020 1.0",
  "bbob-biobj-mixint_f038_i10_d040 1.0",
  "bbob-biobj-mixint_f038_i10_d080 1.0",
  "bbob-biobj-mixint_f038_i10_d160 1.0",
  "bbob-biobj-mixint_f038_i11_d005 1.0",
  "bbob-biobj-mixint_f038_i11_d010 1.0",
  "bbob-biobj-mixint_f038_i11_d020 1.0",
  "bbob-biobj-mixint_f038_i11_d040 1.0",
  "bbob-biobj-mixint_f038_i11_d080 1.0",
  "bbob-biobj-mixint_f038_i11_d160 1.0",
  "bbob-biobj-mixint_f038_i12_d005 1.0",
  "bbob-biobj-mixint_f038_i12_d010 1.0",
  "bbob-biobj-mixint_f038_i12_d020 1.0",
  "bbob-biobj-mixint_f038_i12_d040 1.0",
  "bbob-biobj-mixint_f038_i12_d080 1.0",
  "bbob-biobj-mixint_f038_i12_d160 1.0",
  "bbob-biobj-mixint_f038_i13_d005 1.0",
  "bbob-biobj-mixint_f038_i13_d010 1.0",
  "bbob-biobj-mixint_f038_i13_d020 1.0",
  "bbob-biobj-mixint_f038_i13_d040 1.0",
  "bbob-biobj-mixint_f038_i13_d080 1.0",
  "bbob-biobj-mixint_f038_i13_d160 1.0",
  "bbob-biobj-mixint_f038_i14_d005 1.0",
  "bbob-biobj-mixint_f038_i14_d010 1.0",
  "bbob-biobj-mixint_f038_i14_d020 1.0",
  "bbob-biobj-mixint_f038_i14_d040 1.0",
  "bbob-biobj-mixint_f038_i14_d080 1.0",
  "bbob-biobj-mixint_f038_i14_d160 1.0",
  "bbob-biobj-mixint_f038_i15_d005 1.0",
  "bbob-biobj-mixint_f038_i15_d010 1.0",
  "bbob-biobj-mixint_f038_i15_d020 1.0",
  "bbob-biobj-mixint_f038_i15_d040 1.0",
  "bbob-biobj-mixint_f038_i15_d080 1.0",
  "bbob-biobj-mixint_f038_i15_d160 1.0",
  "bbob-biobj-mixint_f039_i01_d005 1.0",
  "bbob-biobj-mixint_f039_i01_d010 1.0",
  "bbob-biobj-mixint_f039_i01_d020 1.0",
  "bbob-biobj-mixint_f039_i01_d040 1.0",
  "bbob-biobj-mixint_f039_i01_d080 1.0",
  "bbob-biobj-mixint_f039_i01_d160 1.0",
  "bbob-biobj-mixint_f039_i02_d005 1.0",
  "bbob-biobj-mixint_f039_i02_d010 1.0",
  "bbob-biobj-mixint_f039_i02_d020 1.0",
  "bbob-biobj-mixint_f039_i02_d040 1.0",
  "bbob-biobj-mixint_f039_i02_d080 1.0",
  "bbob-biobj-mixint_f039_i02_d160 1.0",
  "bbob-biobj-mixint_f039_i03_d005 1.0",
  "bbob-biobj-mixint_f039_i03_d010 1.0",
  "bbob-biobj-mixint_f039_i03_d020 1.0",
  "bbob-biobj-mixint_f039_i03_d040 1.0",
  "bbob-biobj-mixint_f039_i03_d080 1.0",
  "bbob-biobj-mixint_f039_i03_d160 1.0",
  "bbob-biobj-mixint_f039_i04_d005 1.0",
  "bbob-biobj-mixint_f039_i04_d010 1.0",
  "bbob-biobj-mixint_f039_i04_d020 1.0",
  "bbob-biobj-mixint_f039_i04_d040 1.0",
  "bbob-biobj-mixint_f039_i04_d080 1.0",
  "bbob-biobj-mixint_f039_i04_d160 1.0",
  "bbob-biobj-mixint_f039_i05_d005 1.0",
  "bbob-biobj-mixint_f039_i05_d010 1.0",
  "bbob-biobj-mixint_f039_i05_d020 1.0",
  "bbob-biobj-mixint_f039_i05_d040 1.0",
  "bbob-biobj-mixint_f039_i05_d080 1.0",
  "bbob-biobj-mixint_f039_i05_d160 1.0",
  "bbob-biobj-mixint_f039_i06_d005 1.0",
  "bbob-biobj-mixint_f039_i06_d010 1.0",
  "bbob-biobj-mixint_f039_i06_d020 1.0",
  "bbob-biobj-mixint_f039_i06_d040 1.0",
  "bbob-biobj-mixint_f039_i06_d080 1.0",
  "bbob-biobj-mixint_f039_i06_d160 1.0",
  "bbob-biobj-mixint_f039_i07_d005 1.0",
  "bbob-biobj-mixint_f039_i07_d010 1.0",
  "bbob-biobj-mixint_f039_i07_d020 1.0",
  "bbob-biobj-mixint_f039_i07_d040 1.0",
  "bbob-biobj-mixint_f039_i07_d080 1.0",
  "bbob-biobj-mixint_f039_i07_d160 1.0",
  "bbob-biobj-mixint_f039_i08_d005 1.0",
  "bbob-biobj-mixint_f039_i08_d010 1.0",
  "bbob-biobj-mixint_f039_i08_d020 1.0",
  "bbob-biobj-mixint_f039_i08_d040 1.0",
  "bbob-biobj-mixint_f039_i08_d080 1.0",
  "bbob-biobj-mixint_f039_i08_d160 1.0",
  "bbob-biobj-mixint_f039_i09_d005 1.0",
  "bbob-biobj-mixint_f039_i09_d010 1.0",
  "bbob-biobj-mixint_f039_i09_d020 1.0",
  "bbob-biobj-mixint_f039_i09_d040 1.0",
  "bbob-biobj-mixint_f039_i09_d080 1.0",
  "bbob-biobj-mixint_f039_i09_d160 1.0",
  "bbob-biobj-mixint_f039_i10_d005 1.0",
  "bbob-biobj-mixint_f039_i10_d010 1.0",
  "bbob-biobj-mixint_f039_i10_d020 1.0",
  "bbob-biobj-mixint_f039_i10_d040 1.0",
  "bbob-biobj-mixint_f039_i10_d080 1.0",
  "bbob-biobj-mixint_f039_i10_d160 1.0",
  "bbob-biobj-mixint_f039_i11_d005 1.0",
  "bbob-biobj-mixint_f039_i11_d010 1.0",
  "bbob-biobj-mixint_f039_i11_d020 1.0",
  "bbob-biobj-mixint_f039_i11_d040 1.0",
  "bbob-biobj-mixint_f039_i11_d080 1.0",
  "bbob-biobj-mixint_f039_i11_d160 1.0",
  "bbob-biobj-mixint_f039_i12_d005 1.0",
  "bbob-biobj-mixint_f039_i12_d010 1.0",
  "bbob-biobj-mixint_f039_i12_d020 1.0",
  "bbob-biobj-mixint_f039_i12_d040 1.0",
  "bbob-biobj-mixint_f039_i12_d080 1.0",
  "bbob-biobj-mixint_f039_i12_d160 1.0",
  "bbob-biobj-mixint_f039_i13_d005 1.0",
  "bbob-biobj-mixint_f039_i13_d010 1.0",
  "bbob-biobj-mixint_f039_i13_d020 1.0",
  "bbob-biobj-mixint_f039_i13_d040 1.0",
  "bbob-biobj-mixint_f039_i13_d080 1.0",
  "bbob-biobj-mixint_f039_i13_d160 1.0",
  "bbob-biobj-mixint_f039_i14_d005 1.0",
  "bbob-biobj-mixint_f039_i14_d010 1.0",
  "bbob-biobj-mixint_f039_i14_d020 1.0",
  "bbob-biobj-mixint_f039_i14_d040 1.0",
  "bbob-biobj-mixint_f039_i14_d080 1.0",
  "bbob-biobj-mixint_f039_i14_d160 1.0",
  "bbob-biobj-mixint_f039_i15_d005 1.0",
  "bbob-biobj-mixint_f039_i15_d010 1.0",
  "bbob-biobj-mixint_f039_i15_d020 1.0",
  "bbob-biobj-mixint_f039_i15_d040 1.0",
  "bbob-biobj-mixint_f039_i15_d080 1.0",
  "bbob-biobj-mixint_f039_i15_d160 1.0",
  "bbob-biobj-mixint_f040_i01_d005 1.0",
  "bbob-biobj-mixint_f040_i01_d010 1.0",
  "bbob-biobj-mixint_f040_i01_d020 1.0",
  "bbob-biobj-mixint_f040_i01_d040 1.0",
  "bbob-biobj-mixint_f040_i01_d080 1.0",
  "bbob-biobj-mixint_f040_i01_d160 1.0",
  "bbob-biobj-mixint_f040_i02_d005 1.0",
  "bbob-biobj-mixint_f040_i02_d010 1.0",
  "bbob-biobj-mixint_f040_i02_d020 1.0",
  "bbob-biobj-mixint_f040_i02_d040 1.0",
  "bbob-biobj-mixint_f040_i02_d080 1.0",
  "bbob-biobj-mixint_f040_i02_d160 1.0",
  "bbob-biobj-mixint_f040_i03_d005 1.0",
  "bbob-biobj-mixint_f040_i03_d010 1.0",
  "bbob-biobj-mixint_f040_i03_d020 1.0",
  "bbob-biobj-mixint_f040_i03_d040 1.0",
  "bbob-biobj-mixint_f040_i03_d080 1.0",
  "bbob-biobj-mixint_f040_i03_d160 1.0",
  "bbob-biobj-mixint_f040_i04_d005 1.0",
  "bbob-biobj-mixint_f040_i04_d010 1.0",
  "bbob-biobj-mixint_f040_i04_d020 1.0",
  "bbob-biobj-mixint_f040_i04_d040 1.0",
  "bbob-biobj-mixint_f040_i04_d080 1.0",
  "bbob-biobj-mixint_f040_i04_d160 1.0",
  "bbob-biobj-mixint_f040_i05_d005 1.0",
  "bbob-biobj-mixint_f040_i05_d010 1.0",
  "bbob-biobj-mixint_f040_i05_d020 1.0",
  "bbob-biobj-mixint_f040_i05_d040 1.0",
  "bbob-biobj-mixint_f040_i05_d080 1.0",
  "bbob-biobj-mixint_f040_i05_d160 1.0",
  "bbob-biobj-mixint_f040_i06_d005 1.0",
  "bbob-biobj-mixint_f040_i06_d010 1.0",
  "bbob-biobj-mixint_f040_i06_d020 1.0",
  "bbob-biobj-mixint_f040_i06_d040 1.0",
  "bbob-biobj-mixint_f040_i06_d080 1.0",
  "bbob-biobj-mixint_f040_i06_d160 1.0",
  "bbob-biobj-mixint_f040_i07_d005 1.0",
  "bbob-biobj-mixint_f040_i07_d010 1.0",
  "bbob-biobj-mixint_f040_i07_d020 1.0",
  "bbob-biobj-mixint_f040_i07_d040 1.0",
  "bbob-biobj-mixint_f040_i07_d080 1.0",
  "bbob-biobj-mixint_f040_i07_d160 1.0",
  "bbob-biobj-mixint_f040_i08_d005 1.0",
  "bbob-biobj-mixint_f040_i08_d010 1.0",
  "bbob-biobj-mixint_f040_i08_d020 1.0",
  "bbob-biobj-mixint_f040_i08_d040 1.0",
  "bbob-biobj-mixint_f040_i08_d080 1.0",
  "bbob-biobj-mixint_f040_i08_d160 1.0",
  "bbob-biobj-mixint_f040_i09_d005 1.0",
  "bbob-biobj-mixint_f040_i09_d010 1.0",
  "bbob-biobj-mixint_f040_i09_d020 1.0",
  "bbob-biobj-mixint_f040_i09_d040 1.0",
  "bbob-biobj-mixint_f040_i09_d080 1.0",
  "bbob-biobj-mixint_f040_i09_d160 1.0",
  "bbob-biobj-mixint_f040_i10_d005 1.0",
  "bbob-biobj-mixint_f040_i10_d010 1.0",
  "bbob-biobj-mixint_f040_i10_d020 1.0",
  "bbob-biobj-mixint_f040_i10_d040 1.0",
  "bbob-biobj-mixint_f040_i10_d080 1.0",
  "bbob-biobj-mixint_f040_i10_d160 1.0",
  "bbob-biobj-mixint_f040_i11_d005 1.0",
  "bbob-biobj-mixint_f040_i11_d010 1.0",
  "bbob-biobj-mixint_f040_i11_d020 1.0",
  "bbob-biobj-mixint_f040_i11_d040 1.0",
  "bbob-biobj-mixint_f040_i11_d080 1.0",
  "bbob-biobj-mixint_f040_i11_d160 1.0",
  "bbob-biobj-mixint_f040_i12_d005 1.0",
  "bbob-biobj-mixint_f040_i12_d010 1.0",
  "bbob-biobj-mixint_f040_i12_d020 1.0",
  "bbob-biobj-mixint_f040_i12_d040 1.0",
  "bbob-biobj-mixint_f040_i12_d080 1.0",
  "bbob-biobj-mixint_f040_i12_d160 1.0",
  "bbob-biobj-mixint_f040_i13_d005 1.0",
  "bbob-biobj-mixint_f040_i13_d010 1.0",
  "bbob-biobj-mixint_f040_i13_d020 1.0",
  "bbob-biobj-mixint_f040_i13_d040 1.0",
  "bbob-biobj-mixint_f040_i13_d080 1.0",
  "bbob-biobj-mixint_f040_i13_d160 1.0",
  "bbob-biobj-mixint_f040_i14_d005 1.0",
  "bbob-biobj-mixint_f040_i14_d010 1.0",
  "bbob-biobj-mixint_f040_i14_d020 1.0",
  "bbob-biobj-mixint_f040_i14_d040 1.0",
  "bbob-biobj-mixint_f040_i14_d080 1.0",
  "bbob-biobj-mixint_f040_i14_d160 1.0",
  "bbob-biobj-mixint_f040_i15_d005 1.0",
  "bbob-biobj-mixint_f040_i15_d010 1.0",
  "bbob-biobj-mixint_f040_i15_d020 1.0",
  "bbob-biobj-mixint_f040_i15_d040 1.0",
  "bbob-biobj-mixint_f040_i15_d080 1.0",
  "bbob-biobj-mixint_f040_i15_d160 1.0",
  "bbob-biobj-mixint_f041_i01_d005 1.0",
  "bbob-biobj-mixint_f041_i01_d010 1.0",
  "bbob-biobj-mixint_f041_i01_d020 1.0",
  "bbob-biobj-mixint_f041_i01_d040 1.0",
  "bbob-biobj-mixint_f041_i01_d080 1.0",
  "bbob-biobj-mixint_f041_i01_d160 1.0",
  "bbob-biobj-mixint_f041_i02_d005 1.0",
  "bbob-biobj-mixint_f041_i02_d010 1.0",
  "bbob-biobj-mixint_f041_i02_d020 1.0",
  "bbob-biobj-mixint_f041_i02_d040 1.0",
  "bbob-biobj-mixint_f041_i02_d080 1.0",
  "bbob-biobj-mixint_f041_i02_d160 1.0",
  "bbob-biobj-mixint_f041_i03_d005 1.0",
  "bbob-biobj-mixint_f041_i03_d010 1.0",
  "bbob-biobj-mixint_f041_i03_d020 1.0",
  "bbob-biobj-mixint_f041_i03_d040 1.0",
  "bbob-biobj-mixint_f041_i03_d080 1.0",
  "bbob-biobj-mixint_f041_i03_d160 1.0",
  "bbob-biobj-mixint_f041_i04_d005 1.0",
  "bbob-biobj-mixint_f041_i04_d010 1.0",
  "bbob-biobj-mixint_f041_i04_d020 1.0",
  "bbob-biobj-mixint_f041_i04_d040 1.0",
  "bbob-biobj-mixint_f041_i04_d080 1.0",
  "bbob-biobj-mixint_f041_i04_d160 1.0",
  "bbob-biobj-mixint_f041_i05_d005 1.0",
  "bbob-biobj-mixint_f041_i05_d010 1.0",
  "bbob-biobj-mixint_f041_i05_d020 1.0",
  "bbob-biobj-mixint_f041_i05_d040 1.0",
  "bbob-biobj-mixint_f041_i05_d080 1.0",
  "bbob-biobj-mixint_f041_i05_d160 1.0",
  "bbob-biobj-mixint_f041_i06_d005 1.0",
  "bbob-biobj-mixint_f041_i06_d010 1.0",
  "bbob-biobj-mixint_f041_i06_d020 1.0",
  "bbob-biobj-mixint_f041_i06_d040 1.0",
  "bbob-biobj-mixint_f041_i06_d080 1.0",
  "bbob-biobj-mixint_f041_i06_d160 1.0",
  "bbob-biobj-mixint_f041_i07_d005 1.0",
  "bbob-biobj-mixint_f041_i07_d010 1.0",
  "bbob-biobj-mixint_f041_i07_d020 1.0",
  "bbob-biobj-mixint_f041_i07_d040 1.0",
  "bbob-biobj-mixint_f041_i07_d080 1.0",
  "bbob-biobj-mixint_f041_i07_d160 1.0",
  "bbob-biobj-mixint_f041_i08_d005 1.0",
  "bbob-biobj-mixint_f041_i08_d010 1.0",
  "bbob-biobj-mixint_f041_i08_d020 1.0",
  "bbob-biobj-mixint_f041_i08_d040 1.0",
  "bbob-biobj-mixint_f041_i08_d080 1.0",
  "bbob-biobj-mixint_f041_i08_d160 1.0",
  "bbob-biobj-mixint_f041_i09_d005 1.0",
  "bbob-biobj-mixint_f041_i09_d010 1.0",
  "bbob-biobj-mixint_f041_i09_d020 1.0",
  "bbob-biobj-mixint_f041_i09_d040 1.0",
  "bbob-biobj-mixint_f041_i09_d080 1.0",
  "bbob-biobj-mixint_f041_i09_d160 1.0",
  "bbob-biobj-mixint_f041_i10_d005 1.0",
  "bbob-biobj-mixint_f041_i10_d010 1.0",
  "bbob-biobj-mixint_f041_i10_d020 1.0",
  "bbob-biobj-mixint_f041_i10_d040 1.0",
  "bbob-biobj-mixint_f041_i10_d080 1.0",
  "bbob-biobj-mixint_f041_i10_d160 1.0",
  "bbob-biobj-mixint_f041_i11_d005 1.0",
  "bbob-biobj-mixint_f041_i11_d010 1.0",
  "bbob-biobj-mixint_f041_i11_d020 1.0",
  "bbob-biobj-mixint_f041_i11_d040 1.0",
  "bbob-biobj-mixint_f041_i11_d080 1.0",
  "bbob-biobj-mixint_f041_i11_d160 1.0",
  "bbob-biobj-mixint_f041_i12_d005 1.0",
  "bbob-biobj-mixint_f041_i12_d010 1.0",
  "bbob-biobj-mixint_f041_i12_d020 1.0",
  "bbob-biobj-mixint_f041_i12_d040 1.0",
  "bbob-biobj-mixint_f041_i12_d080 1.0",
  "bbob-biobj-mixint_f041_i12_d160 1.0",
  "bbob-biobj-mixint_f041_i13_d005 1.0",
  "bbob-biobj-mixint_f041_i13_d010 1.0",
  "bbob-biobj-mixint_f041_i13_d020 1.0",
  "bbob-biobj-mixint_f041_i13_d040 1.0",
  "bbob-biobj-mixint_f041_i13_d080 1.0",
  "bbob-biobj-mixint_f041_i13_d160 1.0",
  "bbob-biobj-mixint_f041_i14_d005 1.0",
  "bbob-biobj-mixint_f041_i14_d010 1.0",
  "bbob-biobj-mixint_f041_i14_d020 1.0",
  "bbob-biobj-mixint_f041_i14_d040 1.0",
  "bbob-biobj-mixint_f041_i14_d080 1.0",
  "bbob-biobj-mixint_f041_i14_d160 1.0",
  "bbob-biobj-mixint_f041_i15_d005 1.0",
  "bbob-biobj-mixint_f041_i15_d010 1.0",
  "bbob-biobj-mixint_f041_i15_d020 1.0",
  "bbob-biobj-mixint_f041_i15_d040 1.0",
  "bbob-biobj-mixint_f041_i15_d080 1.0",
  "bbob-biobj-mixint_f041_i15_d160 1.0",
  "bbob-biobj-mixint_f042_i01_d005 1.0",
  "bbob-biobj-mixint_f042_i01_d010 1.0",
  "bbob-biobj-mixint_f042_i01_d020 1.0",
  "bbob-biobj-mixint_f042_i01_d040 1.0",
  "bbob-biobj-mixint_f042_i01_d080 1.0",
  "bbob-biobj-mixint_f042_i01_d160 1.0",
  "bbob-biobj-mixint_f042_i02_d005 1.0",
  "bbob-biobj-mixint_f042_i02_d010 1.0",
  "bbob-biobj-mixint_f042_i02_d020 1.0",
  "bbob-biobj-mixint_f042_i02_d040 1.0",
  "bbob-biobj-mixint_f042_i02_d080 1.0",
  "bbob-biobj-mixint_f042_i02_d160 1.0",
  "bbob-biobj-mixint_f042_i03_d005 1.0",
  "bbob-biobj-mixint_f042_i03_d010 1.0",
  "bbob-biobj-mixint_f042_i03_d020 1.0",
  "bbob-biobj-mixint_f042_i03_d040 1.0",
  "bbob-biobj-mixint_f042_i03_d080 1.0",
  "bbob-biobj-mixint_f042_i03_d160 1.0",
  "bbob-biobj-mixint_f042_i04_d005 1.0",
  "bbob-biobj-mixint_f042_i04_d010 1.0",
  "bbob-biobj-mixint_f042_i04_d020 1.0",
  "bbob-biobj-mixint_f042_i04_d040 1.0",
  "bbob-biobj-mixint_f042_i04_d080 1.0",
  "bbob-biobj-mixint_f042_i04_d160 1.0",
  "bbob-biobj-mixint_f042_i05_d005 1.0",
  "bbob-biobj-mixint_f042_i05_d010 1.0",
  "bbob-biobj-mixint_f042_i05_d020 1.0",
  "bbob-biobj-mixint_f042_i05_d040 1.0",
  "bbob-biobj-mixint_f042_i05_d080 1.0",
  "bbob-biobj-mixint_f042_i05_d160 1.0",
  "bbob-biobj-mixint_f042_i06_d005 1.0",
  "bbob-biobj-mixint_f042_i06_d010 1.0",
  "bbob-biobj-mixint_f042_i06_d020 1.0",
  "bbob-biobj-mixint_f042_i06_d040 1.0",
  "bbob-biobj-mixint_f042_i06_d080 1.0",
  "bbob-biobj-mixint_f042_i06_d160 1.0",
  "bbob-biobj-mixint_f042_i07_d005 1.0",
  "bbob-biobj-mixint_f042_i07_d010 1.0",
  "bbob-biobj-mixint_f042_i07_d020 1.0",
  "bbob-biobj-mixint_f042_i07_d040 1.0",
  "bbob-biobj-mixint_f042_i07_d080 1.0",
  "bbob-biobj-mixint_f042_i07_d160 1.0",
  "bbob-biobj-mixint_f042_i08_d005 1.0",
  "bbob-biobj-mixint_f042_i08_d010 1.0",
  "bbob-biobj-mixint_f042_i08_d020 1.0",
  "bbob-biobj-mixint_f042_i08_d040 1.0",
  "bbob-biobj-mixint_f042_i08_d080 1.0",
  "bbob-biobj-mixint_f042_i08_d160 1.0",
  "bbob-biobj-mixint_f042_i09_d005 1.0",
  "bbob-biobj-mixint_f042_i09_d010 1.0",
  "bbob-biobj-mixint_f042_i09_d020 1.0",
  "bbob-biobj-mixint_f042_i09_d040 1.0",
  "bbob-biobj-mixint_f042_i09_d080 1.0",
  "bbob-biobj-mixint_f042_i09_d160 1.0",
  "bbob-biobj-mixint_f042_i10_d005 1.0",
  "bbob-biobj-mixint_f042_i10_d010 1.0",
  "bbob-biobj-mixint_f042_i10_d020 1.0",
  "bbob-biobj-mixint_f042_i10_d040 1.0",
  "bbob-biobj-mixint_f042_i10_d080 1.0",
  "bbob-biobj-mixint_f042_i10_d160 1.0",
  "bbob-biobj-mixint_f042_i11_d005 1.0",
  "bbob-biobj-mixint_f042_i11_d010 1.0",
  "bbob-biobj-mixint_f042_i11_d020 1.0",
  "bbob-biobj-mixint_f042_i11_d040 1.0",
  "bbob-biobj-mixint_f042_i11_d080 1.0",
  "bbob-biobj-mixint_f042_i11_d160 1.0",
  "bbob-biobj-mixint_f042_i12_d005 1.0",
  "bbob-biobj-mixint_f042_i12_d010 1.0",
  "bbob-biobj-mixint_f042_i12_d020 1.0",
  "bbob-biobj-mixint_f042_i12_d040 1.0",
  "bbob-biobj-mixint_f042_i12_d080 1.0",
  "bbob-biobj-mixint_f042_i12_d160 1.0",
  "bbob-biobj-mixint_f042_i13_d005 1.0",
  "bbob-biobj-mixint_f042_i13_d010 1.0",
  "bbob-biobj-mixint_f042_i13_d020 1.0",
  "bbob-biobj-mixint_f042_i13_d040 1.0",
  "bbob-biobj-mixint_f042_i13_d080 1.0",
  "bbob-biobj-mixint_f042_i13_d160 1.0",
  "bbob-biobj-mixint_f042_i14_d005 1.0",
  "bbob-biobj-mixint_f042_i14_d010 1.0",
  "bbob-biobj-mixint_f042_i14_d020 1.0",
  "bbob-biobj-mixint_f042_i14_d040 1.0",
  "bbob-biobj-mixint_f042_i14_d080 1.0",
  "bbob-biobj-mixint_f042_i14_d160 1.0",
  "bbob-biobj-mixint_f042_i15_d005 1.0",
  "bbob-biobj-mixint_f042_i15_d010 1.0",
  "bbob-biobj-mixint_f042_i15_d020 1.0",
  "bbob-biobj-mixint_f042_i15_d040 1.0",
  "bbob-biobj-mixint_f042_i15_d080 1.0",
  "bbob-biobj-mixint_f042_i15_d160 1.0",
  "bbob-biobj-mixint_f043_i01_d005 1.0",
  "bbob-biobj-mixint_f043_i01_d010 1.0",
  "bbob-biobj-mixint_f043_i01_d020 1.0",
  "bbob-biobj-mixint_f043_i01_d040 1.0",
  "bbob-biobj-mixint_f043_i01_d080 1.0",
  "bbob-biobj-mixint_f043_i01_d160 1.0",
  "bbob-biobj-mixint_f043_i02_d005 1.0",
  "bbob-biobj-mixint_f043_i02_d010 1.0",
  "bbob-biobj-mixint_f043_i02_d020 1.0",
  "bbob-biobj-mixint_f043_i02_d040 1.0",
  "bbob-biobj-mixint_f043_i02_d080 1.0",
  "bbob-biobj-mixint_f043_i02_d160 1.0",
  "bbob-biobj-mixint_f043_i03_d005 1.0",
  "bbob-biobj-mixint_f043_i03_d010 1.0",
  "bbob-biobj-mixint_f043_i03_d020 1.0",
  "bbob-biobj-mixint_f043_i03_d040 1.0",
  "bbob-biobj-mixint_f043_i03_d080 1.0",
  "bbob-biobj-mixint_f043_i03_d160 1.0",
  "bbob-biobj-mixint_f043_i04_d005 1.0",
  "bbob-biobj-mixint_f043_i04_d010 1.0",
  "bbob-biobj-mixint_f043_i04_d020 1.0",
  "bbob-biobj-mixint_f043_i04_d040 1.0",
  "bbob-biobj-mixint_f043_i04_d080 1.0",
  "bbob-biobj-mixint_f043_i04_d160 1.0",
  "bbob-biobj-mixint_f043_i05_d005 1.0",
  "bbob-biobj-mixint_f043_i05_d010 1.0",
  "bbob-biobj-mixint_f043_i05_d020 1.0",
  "bbob-biobj-mixint_f043_i05_d040 1.0",
  "bbob-biobj-mixint_f043_i05_d080 1.0",
  "bbob-biobj-mixint_f043_i05_d160 1.0",
  "bbob-biobj-mixint_f043_i06_d005 1.0",
  "bbob-biobj-mixint_f043_i06_d010 1.0",
  "bbob-biobj-mixint_f043_i06_d020 1.0",
  "bbob-biobj-mixint_f043_i06_d040 1.0",
  "bbob-biobj-mixint_f043_i06_d080 1.0",
  "bbob-biobj-mixint_f043_i06_d160 1.0",
  "bbob-biobj-mixint_f043_i07_d005 1.0",
  "bbob-biobj-mixint_f043_i07_d010 1.0",
  "bbob-biobj-mixint_f043_i07_d020 1.0",
  "bbob-biobj-mixint_f043_i07_d040 1.0",
  "bbob-biobj-mixint_f043_i07_d080 1.0",
  "bbob-biobj-mixint_f043_i07_d160 1.0",
  "bbob-biobj-mixint_f043_i08_d005 1.0",
  "bbob-biobj-mixint_f043_i08_d010 1.0",
  "bbob-biobj-mixint_f043_i08_d020 1.0",
  "bbob-biobj-mixint_f043_i08_d040 1.0",
  "bbob-biobj-mixint_f043_i08_d080 1.0",
  "bbob-biobj-mixint_f043_i08_d160 1.0",
  "bbob-biobj-mixint_f043_i09_d005 1.0",
  "bbob-biobj-mixint_f043_i09_d010 1.0",
  "bbob-biobj-mixint_f043_i09_d020 1.0",
  "bbob-biobj-mixint_f043_i09_d040 1.0",
  "bbob-biobj-mixint_f043_i09_d080 1.0",
  "bbob-biobj-mixint_f043_i09_d160 1.0",
  "bbob-biobj-mixint_f043_i10_d005 1.0",
  "bbob-biobj-mixint_f043_i10_d010 1.0",
  "bbob-biobj-mixint_f043_i10_d020 1.0",
  "bbob-biobj-mixint_f043_i10_d040 1.0",
  "bbob-biobj-mixint_f043_i10_d080 1.0",
  "bbob-biobj-mixint_f043_i10_d160 1.0",
  "bbob-biobj-mixint_f043_i11_d005 1.0",
  "bbob-biobj-mixint_f043_i11_d010 1.0",
  "bbob-biobj-mixint_f043_i11_d020 1.0",
  "bbob-biobj-mixint_f043_i11_d040 1.0",
  "bbob-biobj-mixint_f043_i11_d080 1.0",
  "bbob-biobj-mixint_f043_i11_d160 1.0",
  "bbob-biobj-mixint_f043_i12_d005 1.0",
  "bbob-biobj-mixint_f043_i12_d010 1.0",
  "bbob-biobj-mixint_f043_i12_d020 1.0",
  "bbob-biobj-mixint_f043_i12_d040 1.0",
  "bbob-biobj-mixint_f043_i12_d080 1.0",
  "bbob-biobj-mixint_f043_i12_d160 1.0",
  "bbob-biobj-mixint_f043_i13_d005 1.0",
  "bbob-biobj-mixint_f043_i13_d010 1.0",
  "bbob-biobj-mixint_f043_i13_d020 1.0",
  "bbob-biobj-mixint_f043_i13_d040 1.0",
  "bbob-biobj-mixint_f043_i13_d080 1.0",
  "bbob-biobj-mixint_f043_i13_d160 1.0",
  "bbob-biobj-mixint_f043_i14_d005 1.0",
  "bbob-biobj-mixint_f043_i14_d010 1.0",
  "bbob-biobj-mixint_f043_i14_d020 1.0",
  "bbob-biobj-mixint_f043_i14_d040 1.0",
  "bbob-biobj-mixint_f043_i14_d080 1.0",
  "bbob-biobj-mixint_f043_i14_d160 1.0",
  "bbob-biobj-mixint_f043_i15_d005 1.0",
  "bbob-biobj-mixint_f043_i15_d010 1.0",
  "bbob-biobj-mixint_f043_i15_d020 1.0",
  "bbob-biobj-mixint_f043_i15_d040 1.0",
  "bbob-biobj-mixint_f043_i15_d080 1.0",
  "bbob-biobj-mixint_f043_i15_d160 1.0",
  "bbob-biobj-mixint_f044_i01_d005 1.0",
  "bbob-biobj-mixint_f044_i01_d010 1.0",
  "bbob-biobj-mixint_f044_i01_d020 1.0",
  "bbob-biobj-mixint_f044_i01_d040 1.0",
  "bbob-biobj-mixint_f044_i01_d080 1.0",
  "bbob-biobj-mixint_f044_i01_d160 1.0",
  "bbob-biobj-mixint_f044_i02_d005 1.0",
  "bbob-biobj-mixint_f044_i02_d010 1.0",
  "bbob-biobj-mixint_f044_i02_d020 1.0",
  "bbob-biobj-mixint_f044_i02_d040 1.0",
  "bbob-biobj-mixint_f044_i02_d080 1.0",
  "bbob-biobj-mixint_f044_i02_d160 1.0",
  "bbob-biobj-mixint_f044_i03_d005 1.0",
  "bbob-biobj-mixint_f044_i03_d010 1.0",
  "bbob-biobj-mixint_f044_i03_d020 1.0",
  "bbob-biobj-mixint_f044_i03_d040 1.0",
  "bbob-biobj-mixint_f044_i03_d080 1.0",
  "bbob-biobj-mixint_f044_i03_d160 1.0",
  "bbob-biobj-mixint_f044_i04_d005 1.0",
  "bbob-biobj-mixint_f044_i04_d010 1.0",
  "bbob-biobj-mixint_f044_i04_d020 1.0",
  "bbob-biobj-mixint_f044_i04_d040 1.0",
  "bbob-biobj-mixint_f044_i04_d080 1.0",
  "bbob-biobj-mixint_f044_i04_d160 1.0",
  "bbob-biobj-mixint_f044_i05_d005 1.0",
  "bbob-biobj-mixint_f044_i05_d010 1.0",
  "bbob-biobj-mixint_f044_i05_d020 1.0",
  "bbob-biobj-mixint_f044_i05_d040 1.0",
  "bbob-biobj-mixint_f044_i05_d080 1.0",
  "bbob-biobj-mixint_f044_i05_d160 1.0",
  "bbob-biobj-mixint_f044_i06_d005 1.0",
  "bbob-biobj-mixint_f044_i06_d010 1.0",
  "bbob-biobj-mixint_f044_i06_d020 1.0",
  "bbob-biobj-mixint_f044_i06_d040 1.0",
  "bbob-biobj-mixint_f044_i06_d080 1.0",
  "bbob-biobj-mixint_f044_i06_d160 1.0",
  "bbob-biobj-mixint_f044_i07_d005 1.0",
  "bbob-biobj-mixint_f044_i07_d010 1.0",
  "bbob-biobj-mixint_f044_i07_d020 1.0",
  "bbob-biobj-mixint_f044_i07_d040 1.0",
  "bbob-biobj-mixint_f044_i07_d080 1.0",
  "bbob-biobj-mixint_f044_i07_d160 1.0",
  "bbob-biobj-mixint_f044_i08_d005 1.0",
  "bbob-biobj-mixint_f044_i08_d010 1.0",
  "bbob-biobj-mixint_f044_i08_d020 1.0",
  "bbob-biobj-mixint_f044_i08_d040 1.0",
  "bbob-biobj-mixint_f044_i08_d080 1.0",
  "bbob-biobj-mixint_f044_i08_d160 1.0",
  "bbob-biobj-mixint_f044_i09_d005 1.0",
  "bbob-biobj-mixint_f044_i09_d010 1.0",
  "bbob-biobj-mixint_f044_i09_d020 1.0",
  "bbob-biobj-mixint_f044_i09_d040 1.0",
  "bbob-biobj-mixint_f044_i09_d080 1.0",
  "bbob-biobj-mixint_f044_i09_d160 1.0",
  "bbob-biobj-mixint_f044_i10_d005 1.0",
  "bbob-biobj-mixint_f044_i10_d010 1.0",
  "bbob-biobj-mixint_f044_i10_d020 1.0",
  "bbob-biobj-mixint_f044_i10_d040 1.0",
  "bbob-biobj-mixint_f044_i10_d080 1.0",
  "bbob-biobj-mixint_f044_i10_d160 1.0",
  "bbob-biobj-mixint_f044_i11_d005 1.0",
  "bbob-biobj-mixint_f044_i11_d010 1.0",
  "bbob-biobj-mixint_f044_i11_d020 1.0",
  "bbob-biobj-mixint_f044_i11_d040 1.0",
  "bbob-biobj-mixint_f044_i11_d080 1.0",
  "bbob-biobj-mixint_f044_i11_d160 1.0",
  "bbob-biobj-mixint_f044_i12_d005 1.0",
  "bbob-biobj-mixint_f044_i12_d010 1.0",
  "bbob-biobj-mixint_f044_i12_d020 1.0",
  "bbob-biobj-mixint_f044_i12_d040 1.0",
  "bbob-biobj-mixint_f044_i12_d080 1.0",
  "bbob-biobj-mixint_f044_i12_d160 1.0",
  "bbob-biobj-mixint_f044_i13_d005 1.0",
  "bbob-biobj-mixint_f044_i13_d010 1.0",
  "bbob-biobj-mixint_f044_i13_d020 1.0",
  "bbob-biobj-mixint_f044_i13_d040 1.0",
  "bbob-biobj-mixint_f044_i13_d080 1.0",
  "bbob-biobj-mixint_f044_i13_d160 1.0",
  "bbob-biobj-mixint_f044_i14_d005 1.0",
  "bbob-biobj-mixint_f044_i14_d010 1.0",
  "bbob-biobj-mixint_f044_i14_d020 1.0",
  "bbob-biobj-mixint_f044_i14_d040 1.0",
  "bbob-biobj-mixint_f044_i14_d080 1.0",
  "bbob-biobj-mixint_f044_i14_d160 1.0",
  "bbob-biobj-mixint_f044_i15_d005 1.0",
  "bbob-biobj-mixint_f044_i15_d010 1.0",
  "bbob-biobj-mixint_f044_i15_d020 1.0",
  "bbob-biobj-mixint_f044_i15_d040 1.0",
  "bbob-biobj-mixint_f044_i15_d080 1.0",
  "bbob-biobj-mixint_f044_i15_d160 1.0",
  "bbob-biobj-mixint_f045_i01_d005 1.0",
  "bbob-biobj-mixint_f045_i01_d010 1.0",
  "bbob-biobj-mixint_f045_i01_d020 1.0",
  "bbob-biobj-mixint_f045_i01_d040 1.0",
  "bbob-biobj-mixint_f045_i01_d080 1.0",
  "bbob-biobj-mixint_f045_i01_d160 1.0",
  "bbob-biobj-mixint_f045_i02_d005 1.0",
  "bbob-biobj-mixint_f045_i02_d010 1.0",
  "bbob-biobj-mixint_f045_i02_d020 1.0",
  "bbob-biobj-mixint_f045_i02_d040 1.0",
  "bbob-biobj-mixint_f045_i02_d080 1.0",
  "bbob-biobj-mixint_f045_i02_d160 1.0",
  "bbob-biobj-mixint_f045_i03_d005 1.0",
  "bbob-biobj-mixint_f045_i03_d010 1.0",
  "bbob-biobj-mixint_f045_i03_d020 1.0",
  "bbob-biobj-mixint_f045_i03_d040 1.0",
  "bbob-biobj-mixint_f045_i03_d080 1.0",
  "bbob-biobj-mixint_f045_i03_d160 1.0",
  "bbob-biobj-mixint_f045_i04_d005 1.0",
  "bbob-biobj-mixint_f045_i04_d010 1.0",
  "bbob-biobj-mixint_f045_i04_d020 1.0",
  "bbob-biobj-mixint_f045_i04_d040 1.0",
  "bbob-biobj-mixint_f045_i04_d080 1.0",
  "bbob-biobj-mixint_f045_i04_d160 1.0",
  "bbob-biobj-mixint_f045_i05_d005 1.0",
  "bbob-biobj-mixint_f045_i05_d010 1.0",
  "bbob-biobj-mixint_f045_i05_d020 1.0",
  "bbob-biobj-mixint_f045_i05_d040 1.0",
  "bbob-biobj-mixint_f045_i05_d080 1.0",
  "bbob-biobj-mixint_f045_i05_d160 1.0",
  "bbob-biobj-mixint_f045_i06_d005 1.0",
  "bbob-biobj-mixint_f045_i06_d010 1.0",
  "bbob-biobj-mixint_f045_i06_d020 1.0",
  "bbob-biobj-mixint_f045_i06_d040 1.0",
  "bbob-biobj-mixint_f045_i06_d080 1.0",
  "bbob-biobj-mixint_f045_i06_d160 1.0",
  "bbob-biobj-mixint_f045_i07_d005 1.0",
  "bbob-biobj-mixint_f045_i07_d010 1.0",
  "bbob-biobj-mixint_f045_i07_d020 1.0",
  "bbob-biobj-mixint_f045_i07_d040 1.0",
  "bbob-biobj-mixint_f045_i07_d080 1.0",
  "bbob-biobj-mixint_f045_i07_d160 1.0",
  "bbob-biobj-mixint_f045_i08_d005 1.0",
  "bbob-biobj-mixint_f045_i08_d010 1.0",
  "bbob-biobj-mixint_f045_i08_d020 1.0",
  "bbob-biobj-mixint_f045_i08_d040 1.0",
  "bbob-biobj-mixint_f045_i08_d080 1.0",
  "bbob-biobj-mixint_f045_i08_d160 1.0",
  "bbob-biobj-mixint_f045_i09_d005 1.0",
  "bbob-biobj-mixint_f045_i09_d010 1.0",
  "bbob-biobj-mixint_f045_i09_d020 1.0",
  "bbob-biobj-mixint_f045_i09_d040 1.0",
  "bbob-biobj-mixint_f045_i09_d080 1.0",
  "bbob-biobj-mixint_f045_i09_d160 1.0",
  "bbob-biobj-mixint_f045_i10_d005 1.0",
  "bbob-biobj-mixint_f045_i10_d010 1.0",
  "bbob-biobj-mixint_f045_i10_d020 1.0",
  "bbob-biobj-mixint_f045_i10_d040 1.0",
  "bbob-biobj-mixint_f045_i10_d080 1.0",
  "bbob-biobj-mixint_f045_i10_d160 1.0",
  "bbob-biobj-mixint_f045_i11_d005 1.0",
  "bbob-biobj-mixint_f045_i11_d010 1.0",
  "bbob-biobj-mixint_f045_i11_d020 1.0",
  "bbob-biobj-mixint_f045_i11_d040 1.0",
  "bbob-biobj-mixint_f045_i11_d080 1.0",
  "bbob-biobj-mixint_f045_i11_d160 1.0",
  "bbob-biobj-mixint_f045_i12_d005 1.0",
  "bbob-biobj-mixint_f045_i12_d010 1.0",
  "bbob-biobj-mixint_f045_i12_d020 1.0",
  "bbob-biobj-mixint_f045_i12_d040 1.0",
  "bbob-biobj-mixint_f045_i12_d080 1.0",
  "bbob-biobj-mixint_f045_i12_d160 1.0",
  "bbob-biobj-mixint_f045_i13_d005 1.0",
  "bbob-biobj-mixint_f045_i13_d010 1.0",
  "bbob-biobj-mixint_f045_i13_d020 1.0",
  "bbob-biobj-mixint_f045_i13_d040 1.0",
  "bbob-biobj-mixint_f045_i13_d080 1.0",
  "bbob-biobj-mixint_f045_i13_d160 1.0",
  "bbob-biobj-mixint_f045_i14_d005 1.0",
  "bbob-biobj-mixint_f045_i14_d010 1.0",
  "bbob-biobj-mixint_f045_i14_d020 1.0",
  "bbob-biobj-mixint_f045_i14_d040 1.0",
  "bbob-biobj-mixint_f045_i14_d080 1.0",
  "bbob-biobj-mixint_f045_i14_d160 1.0",
  "bbob-biobj-mixint_f045_i15_d005 1.0",
  "bbob-biobj-mixint_f045_i15_d010 1.0",
  "bbob-biobj-mixint_f045_i15_d020 1.0",
  "bbob-biobj-mixint_f045_i15_d040 1.0",
  "bbob-biobj-mixint_f045_i15_d080 1.0",
  "bbob-biobj-mixint_f045_i15_d160 1.0",
  "bbob-biobj-mixint_f046_i01_d005 1.0",
  "bbob-biobj-mixint_f046_i01_d010 1.0",
  "bbob-biobj-mixint_f046_i01_d020 1.0",
  "bbob-biobj-mixint_f046_i01_d040 1.0",
  "bbob-biobj-mixint_f046_i01_d080 1.0",
  "bbob-biobj-mixint_f046_i01_d160 1.0",
  "bbob-biobj-mixint_f046_i02_d005 1.0",
  "bbob-biobj-mixint_f046_i02_d010 1.0",
  "bbob-biobj-mixint_f046_i02_d020 1.0",
  "bbob-biobj-mixint_f046_i02_d040 1.0",
  "bbob-biobj-mixint_f046_i02_d080 1.0",
  "bbob-biobj-mixint_f046_i02_d160 1.0",
  "bbob-biobj-mixint_f046_i03_d005 1.0",
  "bbob-biobj-mixint_f046_i03_d010 1.0",
  "bbob-biobj-mixint_f046_i03_d020 1.0",
  "bbob-biobj-mixint_f046_i03_d040 1.0",
  "bbob-biobj-mixint_f046_i03_d080 1.0",
  "bbob-biobj-mixint_f046_i03_d160 1.0",
  "bbob-biobj-mixint_f046_i04_d005 1.0",
  "bbob-biobj-mixint_f046_i04_d010 1.0",
  "bbob-biobj-mixint_f046_i04_d020 1.0",
  "bbob-biobj-mixint_f046_i04_d040 1.0",
  "bbob-biobj-mixint_f046_i04_d080 1.0",
  "bbob-biobj-mixint_f046_i04_d160 1.0",
  "bbob-biobj-mixint_f046_i05_d005 1.0",
  "bbob-biobj-mixint_f046_i05_d010 1.0",
  "bbob-biobj-mixint_f046_i05_d020 1.0",
  "bbob-biobj-mixint_f046_i05_d040 1.0",
  "bbob-biobj-mixint_f046_i05_d080 1.0",
  "bbob-biobj-mixint_f046_i05_d160 1.0",
  "bbob-biobj-mixint_f046_i06_d005 1.0",
  "bbob-biobj-mixint_f046_i06_d010 1.0",
  "bbob-biobj-mixint_f046_i06_d020 1.0",
  "bbob-biobj-mixint_f046_i06_d040 1.0",
  "bbob-biobj-mixint_f046_i06_d080 1.0",
  "bbob-biobj-mixint_f046_i06_d160 1.0",
  "bbob-biobj-mixint_f046_i07_d005 1.0",
  "bbob-biobj-mixint_f046_i07_d010 1.0",
  "bbob-biobj-mixint_f046_i07_d020 1.0",
  "bbob-biobj-mixint_f046_i07_d040 1.0",
  "bbob-biobj-mixint_f046_i07_d080 1.0",
  "bbob-biobj-mixint_f046_i07_d160 1.0",
  "bbob-biobj-mixint_f046_i08_d005 1.0",
  "bbob-biobj-mixint_f046_i08_d010 1.0",
  "bbob-biobj-mixint_f046_i08_d020 1.0",
  "bbob-biobj-mixint_f046_i08_d040 1.0",
  "bbob-biobj-mixint_f046_i08_d080 1.0",
  "bbob-biobj-mixint_f046_i08_d160 1.0",
  "bbob-biobj-mixint_f046_i09_d005 1.0",
  "bbob-biobj-mixint_f046_i09_d010 1.0",
  "bbob-biobj-mixint_f046_i09_d020 1.0",
  "bbob-biobj-mixint_f046_i09_d040 1.0",
  "bbob-biobj-mixint_f046_i09_d080 1.0",
  "bbob-biobj-mixint_f046_i09_d160 1.0",
  "bbob-biobj-mixint_f046_i10_d005 1.0",
  "bbob-biobj-mixint_f046_i10_d010 1.0",
  "bbob-biobj-mixint_f046_i10_d020 1.0",
  "bbob-biobj-mixint_f046_i10_d040 1.0",
  "bbob-biobj-mixint_f046_i10_d080 1.0",
  "bbob-biobj-mixint_f046_i10_d160 1.0",
  "bbob-biobj-mixint_f046_i11_d005 1.0",
  "bbob-biobj-mixint_f046_i11_d010 1.0",
  "bbob-biobj-mixint_f046_i11_d020 1.0",
  "bbob-biobj-mixint_f046_i11_d040 1.0",
  "bbob-biobj-mixint_f046_i11_d080 1.0",
  "bbob-biobj-mixint_f046_i11_d160 1.0",
  "bbob-biobj-mixint_f046_i12_d005 1.0",
  "bbob-biobj-mixint_f046_i12_d010 1.0",
  "bbob-biobj-mixint_f046_i12_d020 1.0",
  "bbob-biobj-mixint_f046_i12_d040 1.0",
  "bbob-biobj-mixint_f046_i12_d080 1.0",
  "bbob-biobj-mixint_f046_i12_d160 1.0",
  "bbob-biobj-mixint_f046_i13_d005 1.0",
  "bbob-biobj-mixint_f046_i13_d010 1.0",
  "bbob-biobj-mixint_f046_i13_d020 1.0",
  "bbob-biobj-mixint_f046_i13_d040 1.0",
  "bbob-biobj-mixint_f046_i13_d080 1.0",
  "bbob-biobj-mixint_f046_i13_d160 1.0",
  "bbob-biobj-mixint_f046_i14_d005 1.0",
  "bbob-biobj-mixint_f046_i14_d010 1.0",
  "bbob-biobj-mixint_f046_i14_d020 1.0",
  "bbob-biobj-mixint_f046_i14_d040 1.0",
  "bbob-biobj-mixint_f046_i14_d080 1.0",
  "bbob-biobj-mixint_f046_i14_d160 1.0",
  "bbob-biobj-mixint_f046_i15_d005 1.0",
  "bbob-biobj-mixint_f046_i15_d010 1.0",
  "bbob-biobj-mixint_f046_i15_d020 1.0",
  "bbob-biobj-mixint_f046_i15_d040 1.0",
  "bbob-biobj-mixint_f046_i15_d080 1.0",
  "bbob-biobj-mixint_f046_i15_d160 1.0",
  "bbob-biobj-mixint_f047_i01_d005 1.0",
  "bbob-biobj-mixint_f047_i01_d010 1.0",
  "bbob-biobj-mixint_f047_i01_d020 1.0",
  "bbob-biobj-mixint_f047_i01_d040 1.0",
  "bbob-biobj-mixint_f047_i01_d080 1.0",
  "bbob-biobj-mixint_f047_i01_d160 1.0",
  "bbob-biobj-mixint_f047_i02_d005 1.0",
  "bbob-biobj-mixint_f047_i02_d010 1.0",
  "bbob-biobj-mixint_f047_i02_d020 1.0",
  "bbob-biobj-mixint_f047_i02_d040 1.0",
  "bbob-biobj-mixint_f047_i02_d080 1.0",
  "bbob-biobj-mixint_f047_i02_d160 1.0",
  "bbob-biobj-mixint_f047_i03_d005 1.0",
  "bbob-biobj-mixint_f047_i03_d010 1.0",
  "bbob-biobj-mixint_f047_i03_d020 1.0",
  "bbob-biobj-mixint_f047_i03_d040 1.0",
  "bbob-biobj-mixint_f047_i03_d080 1.0",
  "bbob-biobj-mixint_f047_i03_d160 1.0",
  "bbob-biobj-mixint_f047_i04_d005 1.0",
  "bbob-biobj-mixint_f047_i04_d010 1.0",
  "bbob-biobj-mixint_f047_i04_d020 1.0",
  "bbob-biobj-mixint_f047_i04_d040 1.0",
  "bbob-biobj-mixint_f047_i04_d080 1.0",
  "bbob-biobj-mixint_f047_i04_d160 1.0",
  "bbob-biobj-mixint_f047_i05_d005 1.0",
  "bbob-biobj-mixint_f047_i05_d010 1.0",
  "bbob-biobj-mixint_f047_i05_d020 1.0",
  "bbob-biobj-mixint_f047_i05_d040 1.0",
  "bbob-biobj-mixint_f047_i05_d080 1.0",
  "bbob-biobj-mixint_f047_i05_d160 1.0",
  "bbob-biobj-mixint_f047_i06_d005 1.0",
  "bbob-biobj-mixint_f047_i06_d010 1.0",
  "bbob-biobj-mixint_f047_i06_d020 1.0",
  "bbob-biobj-mixint_f047_i06_d040 1.0",
  "bbob-biobj-mixint_f047_i06_d080 1.0",
  "bbob-biobj-mixint_f047_i06_d160 1.0",
  "bbob-biobj-mixint_f047_i07_d005 1.0",
  "bbob-biobj-mixint_f047_i07_d010 1.0",
  "bbob-biobj-mixint_f047_i07_d020 1.0",
  "bbob-biobj-mixint_f047_i07_d040 1.0",
  "bbob-biobj-mixint_f047_i07_d080 1.0",
  "bbob-biobj-mixint_f047_i07_d160 1.0",
  "bbob-biobj-mixint_f047_i08_d005 1.0",
  "bbob-biobj-mixint_f047_i08_d010 1.0",
  "bbob-biobj-mixint_f047_i08_d020 1.0",
  "bbob-biobj-mixint_f047_i08_d040 1.0",
  "bbob-biobj-mixint_f047_i08_d080 1.0",
  "bbob-biobj-mixint_f047_i08_d160 1.0",
  "bbob-biobj-mixint_f047_i09_d005 1.0",
  "bbob-biobj-mixint_f047_i09_d010 1.0",
  "bbob-biobj-mixint_f047_i09_d020 1.0",
  "bbob-biobj-mixint_f047_i09_d040 1.0",
  "bbob-biobj-mixint_f047_i09_d080 1.0",
  "bbob-biobj-mixint_f047_i09_d160 1.0",
  "bbob-biobj-mixint_f047_i10_d005 1.0",
  "bbob-biobj-mixint_f047_i10_d010 1.0",
  "bbob-biobj-mixint_f047_i10_d020 1.0",
  "bbob-biobj-mixint_f047_i10_d040 1.0",
  "bbob-biobj-mixint_f047_i10_d080 1.0",
  "bbob-biobj-mixint_f047_i10_d160 1.0",
  "bbob-biobj-mixint_f047_i11_d005 1.0",
  "bbob-biobj-mixint_f047_i11_d010 1.0",
  "bbob-biobj-mixint_f047_i11_d020 1.0",
  "bbob-biobj-mixint_f047_i11_d040 1.0",
  "bbob-biobj-mixint_f047_i11_d080 1.0",
  "bbob-biobj-mixint_f047_i11_d160 1.0",
  "bbob-biobj-mixint_f047_i12_d005 1.0",
  "bbob-biobj-mixint_f047_i12_d010 1.0",
  "bbob-biobj-mixint_f047_i12_d020 1.0",
  "bbob-biobj-mixint_f047_i12_d040 1.0",
  "bbob-biobj-mixint_f047_i12_d080 1.0",
  "bbob-biobj-mixint_f047_i12_d160 1.0",
  "bbob-biobj-mixint_f047_i13_d005 1.0",
  "bbob-biobj-mixint_f047_i13_d010 1.0",
  "bbob-biobj-mixint_f047_i13_d020 1.0",
  "bbob-biobj-mixint_f047_i13_d040 1.0",
  "bbob-biobj-mixint_f047_i13_d080 1.0",
  "bbob-biobj-mixint_f047_i13_d160 1.0",
  "bbob-biobj-mixint_f047_i14_d005 1.0",
  "bbob-biobj-mixint_f047_i14_d010 1.0",
  "bbob-biobj-mixint_f047_i14_d020 1.0",
  "bbob-biobj-mixint_f047_i14_d040 1.0",
  "bbob-biobj-mixint_f047_i14_d080 1.0",
  "bbob-biobj-mixint_f047_i14_d160 1.0",
  "bbob-biobj-mixint_f047_i15_d005 1.0",
  "bbob-biobj-mixint_f047_i15_d010 1.0",
  "bbob-biobj-mixint_f047_i15_d020 1.0",
  "bbob-biobj-mixint_f047_i15_d040 1.0",
  "bbob-biobj-mixint_f047_i15_d080 1.0",
  "bbob-biobj-mixint_f047_i15_d160 1.0",
  "bbob-biobj-mixint_f048_i01_d005 1.0",
  "bbob-biobj-mixint_f048_i01_d010 1.0",
  "bbob-biobj-mixint_f048_i01_d020 1.0",
  "bbob-biobj-mixint_f048_i01_d040 1.0",
  "bbob-biobj-mixint_f048_i01_d080 1.0",
  "bbob-biobj-mixint_f048_i01_d160 1.0",
  "bbob-biobj-mixint_f048_i02_d005 1.0",
  "bbob-biobj-mixint_f048_i02_d010 1.0",
  "bbob-biobj-mixint_f048_i02_d020 1.0",
  "bbob-biobj-mixint_f048_i02_d040 1.0",
  "bbob-biobj-mixint_f048_i02_d080 1.0",
  "bbob-biobj-mixint_f048_i02_d160 1.0",
  "bbob-biobj-mixint_f048_i03_d005 1.0",
  "bbob-biobj-mixint_f048_i03_d010 1.0",
  "bbob-biobj-mixint_f048_i03_d020 1.0",
  "bbob-biobj-mixint_f048_i03_d040 1.0",
  "bbob-biobj-mixint_f048_i03_d080 1.0",
  "bbob-biobj-mixint_f048_i03_d160 1.0",
  "bbob-biobj-mixint_f048_i04_d005 1.0",
  "bbob-biobj-mixint_f048_i04_d010 1.0",
  "bbob-biobj-mixint_f048_i04_d020 1.0",
  "bbob-biobj-mixint_f048_i04_d040 1.0",
  "bbob-biobj-mixint_f048_i04_d080 1.0",
  "bbob-biobj-mixint_f048_i04_d160 1.0",
  "bbob-biobj-mixint_f048_i05_d005 1.0",
  "bbob-biobj-mixint_f048_i05_d010 1.0",
  "bbob-biobj-mixint_f048_i05_d020 1.0",
  "bbob-biobj-mixint_f048_i05_d040 1.0",
  "bbob-biobj-mixint_f048_i05_d080 1.0",
  "bbob-biobj-mixint_f048_i05_d160 1.0",
  "bbob-biobj-mixint_f048_i06_d005 1.0",
  "bbob-biobj-mixint_f048_i06_d010 1.0",
  "bbob-biobj-mixint_f048_i06_d020 1.0",
  "bbob-biobj-mixint_f048_i06_d040 1.0",
  "bbob-biobj-mixint_f048_i06_d080 1.0",
  "bbob-biobj-mixint_f048_i06_d160 1.0",
  "bbob-biobj-mixint_f048_i07_d005 1.0",
  "bbob-biobj-mixint_f048_i07_d010 1.0",
  "bbob-biobj-mixint_f048_i07_d020 1.0",
  "bbob-biobj-mixint_f048_i07_d040 1.0",
  "bbob-biobj-mixint_f048_i07_d080 1.0",
  "bbob-biobj-mixint_f048_i07_d160 1.0",
  "bbob-biobj-mixint_f048_i08_d005 1.0",
  "bbob-biobj-mixint_f048_i08_d010 1.0",
  "bbob-biobj-mixint_f048_i08_d020 1.0",
  "bbob-biobj-mixint_f048_i08_d040 1.0",
  "bbob-biobj-mixint_f048_i08_d080 1.0",
  "bbob-biobj-mixint_f048_i08_d160 1.0",
  "bbob-biobj-mixint_f048_i09_d005 1.0",
  "bbob-biobj-mixint_f048_i09_d010 1.0",
  "bbob-biobj-mixint_f048_i09_d020 1.0",
  "bbob-biobj-mixint_f048_i09_d040 1.0",
  "bbob-biobj-mixint_f048_i09_d080 1.0",
  "bbob-biobj-mixint_f048_i09_d160 1.0",
  "bbob-biobj-mixint_f048_i10_d005 1.0",
  "bbob-biobj-mixint_f048_i10_d010 1.0",
  "bbob-biobj-mixint_f048_i10_d020 1.0",
  "bbob-biobj-mixint_f048_i10_d040 1.0",
  "bbob-biobj-mixint_f048_i10_d080 1.0",
  "bbob-biobj-mixint_f048_i10_d160 1.0",
  "bbob-biobj-mixint_f048_i11_d005 1.0",
  "bbob-biobj-mixint_f048_i11_d010 1.0",
  "bbob-biobj-mixint_f048_i11_d020 1.0",
  "bbob-biobj-mixint_f048_i11_d040 1.0",
  "bbob-biobj-mixint_f048_i11_d080 1.0",
  "bbob-biobj-mixint_f048_i11_d160 1.0",
  "bbob-biobj-mixint_f048_i12_d005 1.0",
  "bbob-biobj-mixint_f048_i12_d010 1.0",
  "bbob-biobj-mixint_f048_i12_d020 1.0",
  "bbob-biobj-mixint_f048_i12_d040 1.0",
  "bbob-biobj-mixint_f048_i12_d080 1.0",
  "bbob-biobj-mixint_f048_i12_d160 1.0",
  "bbob-biobj-mixint_f048_i13_d005 1.0",
  "bbob-biobj-mixint_f048_i13_d010 1.0",
  "bbob-biobj-mixint_f048_i13_d020 1.0",
  "bbob-biobj-mixint_f048_i13_d040 1.0",
  "bbob-biobj-mixint_f048_i13_d080 1.0",
  "bbob-biobj-mixint_f048_i13_d160 1.0",
  "bbob-biobj-mixint_f048_i14_d005 1.0",
  "bbob-biobj-mixint_f048_i14_d010 1.0",
  "bbob-biobj-mixint_f048_i14_d020 1.0",
  "bbob-biobj-mixint_f048_i14_d040 1.0",
  "bbob-biobj-mixint_f048_i14_d080 1.0",
  "bbob-biobj-mixint_f048_i14_d160 1.0",
  "bbob-biobj-mixint_f048_i15_d005 1.0",
  "bbob-biobj-mixint_f048_i15_d010 1.0",
  "bbob-biobj-mixint_f048_i15_d020 1.0",
  "bbob-biobj-mixint_f048_i15_d040 1.0",
  "bbob-biobj-mixint_f048_i15_d080 1.0",
  "bbob-biobj-mixint_f048_i15_d160 1.0",
  "bbob-biobj-mixint_f049_i01_d005 1.0",
  "bbob-biobj-mixint_f049_i01_d010 1.0",
  "bbob-biobj-mixint_f049_i01_d020 1.0",
  "bbob-biobj-mixint_f049_i01_d040 1.0",
  "bbob-biobj-mixint_f049_i01_d080 1.0",
  "bbob-biobj-mixint_f049_i01_d160 1.0",
  "bbob-biobj-mixint_f049_i02_d005 1.0",
  "bbob-biobj-mixint_f049_i02_d010 1.0",
  "bbob-biobj-mixint_f049_i02_d020 1.0",
  "bbob-biobj-mixint_f049_i02_d040 1.0",
  "bbob-biobj-mixint_f049_i02_d080 1.0",
  "bbob-biobj-mixint_f049_i02_d160 1.0",
  "bbob-biobj-mixint_f049_i03_d005 1.0",
  "bbob-biobj-mixint_f049_i03_d010 1.0",
  "bbob-biobj-mixint_f049_i03_d020 1.0",
  "bbob-biobj-mixint_f049_i03_d040 1.0",
  "bbob-biobj-mixint_f049_i03_d080 1.0",
  "bbob-biobj-mixint_f049_i03_d160 1.0",
  "bbob-biobj-mixint_f049_i04_d005 1.0",
  "bbob-biobj-mixint_f049_i04_d010 1.0",
  "bbob-biobj-mixint_f049_i04_d020 1.0",
  "bbob-biobj-mixint_f049_i04_d040 1.0",
  "bbob-biobj-mixint_f049_i04_d080 1.0",
  "bbob-biobj-mixint_f049_i04_d160 1.0",
  "bbob-biobj-mixint_f049_i05_d005 1.0",
  "bbob-biobj-mixint_f049_i05_d010 1.0",
  "bbob-biobj-mixint_f049_i05_d020 1.0",
  "bbob-biobj-mixint_f049_i05_d040 1.0",
  "bbob-biobj-mixint_f049_i05_d080 1.0",
  "bbob-biobj-mixint_f049_i05_d160 1.0",
  "bbob-biobj-mixint_f049_i06_d005 1.0",
  "bbob-biobj-mixint_f049_i06_d010 1.0",
  "bbob-biobj-mixint_f049_i06_d020 1.0",
  "bbob-biobj-mixint_f049_i06_d040 1.0",
  "bbob-biobj-mixint_f049_i06_d080 1.0",
  "bbob-biobj-mixint_f049_i06_d160 1.0",
  "bbob-biobj-mixint_f049_i07_d005 1.0",
  "bbob-biobj-mixint_f049_i07_d010 1.0",
  "bbob-biobj-mixint_f049_i07_d020 1.0",
  "bbob-biobj-mixint_f049_i07_d040 1.0",
  "bbob-biobj-mixint_f049_i07_d080 1.0",
  "bbob-biobj-mixint_f049_i07_d160 1.0",
  "bbob-biobj-mixint_f049_i08_d005 1.0",
  "bbob-biobj-mixint_f049_i08_d010 1.0",
  "bbob-biobj-mixint_f049_i08_d020 1.0",
  "bbob-biobj-mixint_f049_i08_d040 1.0",
  "bbob-biobj-mixint_f049_i08_d080 1.0",
  "bbob-biobj-mixint_f049_i08_d160 1.0",
  "bbob-biobj-mixint_f049_i09_d005 1.0",
  "bbob-biobj-mixint_f049_i09_d010 1.0",
  "bbob-biobj-mixint_f049_i09_d020 1.0",
  "bbob-biobj-mixint_f049_i09_d040 1.0",
  "bbob-biobj-mixint_f049_i09_d080 1.0",
  "bbob-biobj-mixint_f049_i09_d160 1.0",
  "bbob-biobj-mixint_f049_i10_d005 1.0",
  "bbob-biobj-mixint_f049_i10_d010 1.0",
  "bbob-biobj-mixint_f049_i10_d020 1.0",
  "bbob-biobj-mixint_f049_i10_d040 1.0",
  "bbob-biobj-mixint_f049_i10_d080 1.0",
  "bbob-biobj-mixint_f049_i10_d160 1.0",
  "bbob-biobj-mixint_f049_i11_d005 1.0",
  "bbob-biobj-mixint_f049_i11_d010 1.0",
  "bbob-biobj-mixint_f049_i11_d020 1.0",
  "bbob-biobj-mixint_f049_i11_d040 1.0",
  "bbob-biobj-mixint_f049_i11_d080 1.0",
  "bbob-biobj-mixint_f049_i11_d160 1.0",
  "bbob-biobj-mixint_f049_i12_d005 1.0",
  "bbob-biobj-mixint_f049_i12_d010 1.0",
  "bbob-biobj-mixint_f049_i12_d020 1.0",
  "bbob-biobj-mixint_f049_i12_d040 1.0",
  "bbob-biobj-mixint_f049_i12_d080 1.0",
  "bbob-biobj-mixint_f049_i12_d160 1.0",
  "bbob-biobj-mixint_f049_i13_d005 1.0",
  "bbob-biobj-mixint_f049_i13_d010 1.0",
  "bbob-biobj-mixint_f049_i13_d020 1.0",
  "bbob-biobj-mixint_f049_i13_d040 1.0",
  "bbob-biobj-mixint_f049_i13_d080 1.0",
  "bbob-biobj-mixint_f049_i13_d160 1.0",
  "bbob-biobj-mixint_f049_i14_d005 1.0",
  "bbob-biobj-mixint_f049_i14_d010 1.0",
  "bbob-biobj-mixint_f049_i14_d020 1.0",
  "bbob-biobj-mixint_f049_i14_d040 1.0",
  "bbob-biobj-mixint_f049_i14_d080 1.0",
  "bbob-biobj-mixint_f049_i14_d160 1.0",
  "bbob-biobj-mixint_f049_i15_d005 1.0",
  "bbob-biobj-mixint_f049_i15_d010 1.0",
  "bbob-biobj-mixint_f049_i15_d020 1.0",
  "bbob-biobj-mixint_f049_i15_d040 1.0",
  "bbob-biobj-mixint_f049_i15_d080 1.0",
  "bbob-biobj-mixint_f049_i15_d160 1.0",
  "bbob-biobj-mixint_f050_i01_d005 1.0",
  "bbob-biobj-mixint_f050_i01_d010 1.0",
  "bbob-biobj-mixint_f050_i01_d020 1.0",
  "bbob-biobj-mixint_f050_i01_d040 1.0",
  "bbob-biobj-mixint_f050_i01_d080 1.0",
  "bbob-biobj-mixint_f050_i01_d160 1.0",
  "bbob-biobj-mixint_f050_i02_d005 1.0",
  "bbob-biobj-mixint_f050_i02_d010 1.0",
  "bbob-biobj-mixint_f050_i02_d020 1.0",
  "bbob-biobj-mixint_f050_i02_d040 1.0",
  "bbob-biobj-mixint_f050_i02_d080 1.0",
  "bbob-biobj-mixint_f050_i02_d160 1.0",
  "bbob-biobj-mixint_f050_i03_d005 1.0",
  "bbob-biobj-mixint_f050_i03_d010 1.0",
  "bbob-biobj-mixint_f050_i03_d020 1.0",
  "bbob-biobj-mixint_f050_i03_d040 1.0",
  "bbob-biobj-mixint_f050_i03_d080 1.0",
  "bbob-biobj-mixint_f050_i03_d160 1.0",
  "bbob-biobj-mixint_f050_i04_d005 1.0",
  "bbob-biobj-mixint_f050_i04_d010 1.0",
  "bbob-biobj-mixint_f050_i04_d020 1.0",
  "bbob-biobj-mixint_f050_i04_d040 1.0",
  "bbob-biobj-mixint_f050_i04_d080 1.0",
  "bbob-biobj-mixint_f050_i04_d160 1.0",
  "bbob-biobj-mixint_f050_i05_d005 1.0",
  "bbob-biobj-mixint_f050_i05_d010 1.0",
  "bbob-biobj-mixint_f050_i05_d020 1.0",
  "bbob-biobj-mixint_f050_i05_d040 1.0",
  "bbob-biobj-mixint_f050_i05_d080 1.0",
  "bbob-biobj-mixint_f050_i05_d160 1.0",
  "bbob-biobj-mixint_f050_i06_d005 1.0",
  "bbob-biobj-mixint_f050_i06_d010 1.0",
  "bbob-biobj-mixint_f050_i06_d020 1.0",
  "bbob-biobj-mixint_f050_i06_d040 1.0",
  "bbob-biobj-mixint_f050_i06_d080 1.0",
  "bbob-biobj-mixint_f050_i06_d160 1.0",
  "bbob-biobj-mixint_f050_i07_d005 1.0",
  "bbob-biobj-mixint_f050_i07_d010 1.0",
  "bbob-biobj-mixint_f050_i07_d020 1.0",
  "bbob-biobj-mixint_f050_i07_d040 1.0",
  "bbob-biobj-mixint_f050_i07_d080 1.0",
  "bbob-biobj-mixint_f050_i07_d160 1.0",
  "bbob-biobj-mixint_f050_i08_d005 1.0",
  "bbob-biobj-mixint_f050_i08_d010 1.0",
  "bbob-biobj-mixint_f050_i08_d020 1.0",
  "bbob-biobj-mixint_f050_i08_d040 1.0",
  "bbob-biobj-mixint_f050_i08_d080 1.0",
  "bbob-biobj-mixint_f050_i08_d160 1.0",
  "bbob-biobj-mixint_f050_i09_d005 1.0",
  "bbob-biobj-mixint_f050_i09_d010 1.0",
  "bbob-biobj-mixint_f050_i09_d020 1.0",
  "bbob-biobj-mixint_f050_i09_d040 1.0",
  "bbob-biobj-mixint_f050_i09_d080 1.0",
  "bbob-biobj-mixint_f050_i09_d160 1.0",
  "bbob-biobj-mixint_f050_i10_d005 1.0",
  "bbob-biobj-mixint_f050_i10_d010 1.0",
  "bbob-biobj-mixint_f050_i10_d020 1.0",
  "bbob-biobj-mixint_f050_i10_d040 1.0",
  "bbob-biobj-mixint_f050_i10_d080 1.0",
  "bbob-biobj-mixint_f050_i10_d160 1.0",
  "bbob-biobj-mixint_f050_i11_d005 1.0",
  "bbob-biobj-mixint_f050_i11_d010 1.0",
  "bbob-biobj-mixint_f050_i11_d020 1.0",
  "bbob-biobj-mixint_f050_i11_d040 1.0",
  "bbob-biobj-mixint_f050_i11_d080 1.0",
  "bbob-biobj-mixint_f050_i11_d160 1.0",
  "bbob-biobj-mixint_f050_i12_d005 1.0",
  "bbob-biobj-mixint_f050_i12_d010 1.0",
  "bbob-biobj-mixint_f050_i12_d020 1.0",
  "bbob-biobj-mixint_f050_i12_d040 1.0",
  "bbob-biobj-mixint_f050_i12_d080 1.0",
  "bbob-biobj-mixint_f050_i12_d160 1.0",
  "bbob-biobj-mixint_f050_i13_d005 1.0",
  "bbob-biobj-mixint_f050_i13_d010 1.0",
  "bbob-biobj-mixint_f050_i13_d020 1.0",
  "bbob-biobj-mixint_f050_i13_d040 1.0",
  "bbob-biobj-mixint_f050_i13_d080 1.0",
  "bbob-biobj-mixint_f050_i13_d160 1.0",
  "bbob-biobj-mixint_f050_i14_d005 1.0",
  "bbob-biobj-mixint_f050_i14_d010 1.0",
  "bbob-biobj-mixint_f050_i14_d020 1.0",
  "bbob-biobj-mixint_f050_i14_d040 1.0",
  "bbob-biobj-mixint_f050_i14_d080 1.0",
  "bbob-biobj-mixint_f050_i14_d160 1.0",
  "bbob-biobj-mixint_f050_i15_d005 1.0",
  "bbob-biobj-mixint_f050_i15_d010 1.0",
  "bbob-biobj-mixint_f050_i15_d020 1.0",
  "bbob-biobj-mixint_f050_i15_d040 1.0",
  "bbob-biobj-mixint_f050_i15_d080 1.0",
  "bbob-biobj-mixint_f050_i15_d160 1.0",
  "bbob-biobj-mixint_f051_i01_d005 1.0",
  "bbob-biobj-mixint_f051_i01_d010 1.0",
  "bbob-biobj-mixint_f051_i01_d020 1.0",
  "bbob-biobj-mixint_f051_i01_d040 1.0",
  "bbob-biobj-mixint_f051_i01_d080 1.0",
  "bbob-biobj-mixint_f051_i01_d160 1.0",
  "bbob-biobj-mixint_f051_i02_d005 1.0",
  "bbob-biobj-mixint_f051_i02_d010 1.0",
  "bbob-biobj-mixint_f051_i02_d020 1.0",
  "bbob-biobj-mixint_f051_i02_d040 1.0",
  "bbob-biobj-mixint_f051_i02_d080 1.0",
  "bbob-biobj-mixint_f051_i02_d160 1.0",
  "bbob-biobj-mixint_f051_i03_d005 1.0",
  "bbob-biobj-mixint_f051_i03_d010 1.0",
  "bbob-biobj-mixint_f051_i03_d020 1.0",
  "bbob-biobj-mixint_f051_i03_d040 1.0",
  "bbob-biobj-mixint_f051_i03_d080 1.0",
  "bbob-biobj-mixint_f051_i03_d160 1.0",
  "bbob-biobj-mixint_f051_i04_d005 1.0",
  "bbob-biobj-mixint_f051_i04_d010 1.0",
  "bbob-biobj-mixint_f051_i04_d020 1.0",
  "bbob-biobj-mixint_f051_i04_d040 1.0",
  "bbob-biobj-mixint_f051_i04_d080 1.0",
  "bbob-biobj-mixint_f051_i04_d160 1.0",
  "bbob-biobj-mixint_f051_i05_d005 1.0",
  "bbob-biobj-mixint_f051_i05_d010 1.0",
  "bbob-biobj-mixint_f051_i05_d020 1.0",
  "bbob-biobj-mixint_f051_i05_d040 1.0",
  "bbob-biobj-mixint_f051_i05_d080 1.0",
  "bbob-biobj-mixint_f051_i05_d160 1.0",
  "bbob-biobj-mixint_f051_i06_d005 1.0",
  "bbob-biobj-mixint_f051_i06_d010 1.0",
  "bbob-biobj-mixint_f051_i06_d020 1.0",
  "bbob-biobj-mixint_f051_i06_d040 1.0",
  "bbob-biobj-mixint_f051_i06_d080 1.0",
  "bbob-biobj-mixint_f051_i06_d160 1.0",
  "bbob-biobj-mixint_f051_i07_d005 1.0",
  "bbob-biobj-mixint_f051_i07_d010 1.0",
  "bbob-biobj-mixint_f051_i07_d020 1.0",
  "bbob-biobj-mixint_f051_i07_d040 1.0",
  "bbob-biobj-mixint_f051_i07_d080 1.0",
  "bbob-biobj-mixint_f051_i07_d160 1.0",
  "bbob-biobj-mixint_f051_i08_d005 1.0",
  "bbob-biobj-mixint_f051_i08_d010 1.0",
  "bbob-biobj-mixint_f051_i08_d020 1.0",
  "bbob-biobj-mixint_f051_i08_d040 1.0",
  "bbob-biobj-mixint_f051_i08_d080 1.0",
  "bbob-biobj-mixint_f051_i08_d160 1.0",
  "bbob-biobj-mixint_f051_i09_d005 1.0",
  "bbob-biobj-mixint_f051_i09_d010 1.0",
  "bbob-biobj-mixint_f051_i09_d020 1.0",
  "bbob-biobj-mixint_f051_i09_d040 1.0",
  "bbob-biobj-mixint_f051_i09_d080 1.0",
  "bbob-biobj-mixint_f051_i09_d160 1.0",
  "bbob-biobj-mixint_f051_i10_d005 1.0",
  "bbob-biobj-mixint_f051_i10_d010 1.0",
  "bbob-biobj-mixint_f051_i10_d020 1.0",
  "bbob-biobj-mixint_f051_i10_d040 1.0",
  "bbob-biobj-mixint_f051_i10_d080 1.0",
  "bbob-biobj-mixint_f051_i10_d160 1.0",
  "bbob-biobj-mixint_f051_i11_d005 1.0",
  "bbob-biobj-mixint_f051_i11_d010 1.0",
  "bbob-biobj-mixint_f051_i11_d020 1.0",
  "bbob-biobj-mixint_f051_i11_d040 1.0",
  "bbob-biobj-mixint_f051_i11_d080 1.0",
  "bbob-biobj-mixint_f051_i11_d160 1.0",
  "bbob-biobj-mixint_f051_i12_d005 1.0",
  "bbob-biobj-mixint_f051_i12_d010 1.0",
  "bbob-biobj-mixint_f051_i12_d020 1.0",
  "bbob-biobj-mixint_f051_i12_d040 1.0",
  "bbob-biobj-mixint_f051_i12_d080 1.0",
  "bbob-biobj-mixint_f051_i12_d160 1.0",
  "bbob-biobj-mixint_f051_i13_d005 1.0",
  "bbob-biobj-mixint_f051_i13_d010 1.0",
  "bbob-biobj-mixint_f051_i13_d020 1.0",
  "bbob-biobj-mixint_f051_i13_d040 1.0",
  "bbob-biobj-mixint_f051_i13_d080 1.0",
  "bbob-biobj-mixint_f051_i13_d160 1.0",
  "bbob-biobj-mixint_f051_i14_d005 1.0",
  "bbob-biobj-mixint_f051_i14_d010 1.0",
  "bbob-biobj-mixint_f051_i14_d020 1.0",
  "bbob-biobj-mixint_f051_i14_d040 1.0",
  "bbob-biobj-mixint_f051_i14_d080 1.0",
  "bbob-biobj-mixint_f051_i14_d160 1.0",
  "bbob-biobj-mixint_f051_i15_d005 1.0",
  "bbob-biobj-mixint_f051_i15_d010 1.0",
  "bbob-biobj-mixint_f051_i15_d020 1.0",
  "bbob-biobj-mixint_f051_i15_d040 1.0",
  "bbob-biobj-mixint_f051_i15_d080 1.0",
  "bbob-biobj-mixint_f051_i15_d160 1.0",
  "bbob-biobj-mixint_f052_i01_d005 1.0",
  "bbob-biobj-mixint_f052_i01_d010 1.0",
  "bbob-biobj-mixint_f052_i01_d020 1.0",
  "bbob-biobj-mixint_f052_i01_d040 1.0",
  "bbob-biobj-mixint_f052_i01_d080 1.0",
  "bbob-biobj-mixint_f052_i01_d160 1.0",
  "bbob-biobj-mixint_f052_i02_d005 1.0",
  "bbob-biobj-mixint_f052_i02_d010 1.0",
  "bbob-biobj-mixint_f052_i02_d020 1.0",
  "bbob-biobj-mixint_f052_i02_d040 1.0",
  "bbob-biobj-mixint_f052_i02_d080 1.0",
  "bbob-biobj-mixint_f052_i02_d160 1.0",
  "bbob-biobj-mixint_f052_i03_d005 1.0",
  "bbob-biobj-mixint_f052_i03_d010 1.0",
  "bbob-biobj-mixint_f052_i03_d020 1.0",
  "bbob-biobj-mixint_f052_i03_d040 1.0",
  "bbob-biobj-mixint_f052_i03_d080 1.0",
  "bbob-biobj-mixint_f052_i03_d160 1.0",
  "bbob-biobj-mixint_f052_i04_d005 1.0",
  "bbob-biobj-mixint_f052_i04_d010 1.0",
  "bbob-biobj-mixint_f052_i04_d020 1.0",
  "bbob-biobj-mixint_f052_i04_d040 1.0",
  "bbob-biobj-mixint_f052_i04_d080 1.0",
  "bbob-biobj-mixint_f052_i04_d160 1.0",
  "bbob-biobj-mixint_f052_i05_d005 1.0",
  "bbob-biobj-mixint_f052_i05_d010 1.0",
  "bbob-biobj-mixint_f052_i05_d020 1.0",
  "bbob-biobj-mixint_f052_i05_d040 1.0",
  "bbob-biobj-mixint_f052_i05_d080 1.0",
  "bbob-biobj-mixint_f052_i05_d160 1.0",
  "bbob-biobj-mixint_f052_i06_d005 1.0",
  "bbob-biobj-mixint_f052_i06_d010 1.0",
  "bbob-biobj-mixint_f052_i06_d020 1.0",
  "bbob-biobj-mixint_f052_i06_d040 1.0",
  "bbob-biobj-mixint_f052_i06_d080 1.0",
  "bbob-biobj-mixint_f052_i06_d160 1.0",
  "bbob-biobj-mixint_f052_i07_d005 1.0",
  "bbob-biobj-mixint_f052_i07_d010 1.0",
  "bbob-biobj-mixint_f052_i07_d020 1.0",
  "bbob-biobj-mixint_f052_i07_d040 1.0",
  "bbob-biobj-mixint_f052_i07_d080 1.0",
  "bbob-biobj-mixint_f052_i07_d160 1.0",
  "bbob-biobj-mixint_f052_i08_d005 1.0",
  "bbob-biobj-mixint_f052_i08_d010 1.0",
  "bbob-biobj-mixint_f052_i08_d020 1.0",
  "bbob-biobj-mixint_f052_i08_d040 1.0",
  "bbob-biobj-mixint_f052_i08_d080 1.0",
  "bbob-biobj-mixint_f052_i08_d160 1.0",
  "bbob-biobj-mixint_f052_i09_d005 1.0",
  "bbob-biobj-mixint_f052_i09_d010 1.0",
  "bbob-biobj-mixint_f052_i09_d020 1.0",
  "bbob-biobj-mixint_f052_i09_d040 1.0",
  "bbob-biobj-mixint_f052_i09_d080 1.0",
  "bbob-biobj-mixint_f052_i09_d160 1.0",
  "bbob-biobj-mixint_f052_i10_d005 1.0",
  "bbob-biobj-mixint_f052_i10_d010 1.0",
  "bbob-biobj-mixint_f052_i10_d020 1.0",
  "bbob-biobj-mixint_f052_i10_d040 1.0",
  "bbob-biobj-mixint_f052_i10_d080 1.0",
  "bbob-biobj-mixint_f052_i10_d160 1.0",
  "bbob-biobj-mixint_f052_i11_d005 1.0",
  "bbob-biobj-mixint_f052_i11_d010 1.0",
  "bbob-biobj-mixint_f052_i11_d020 1.0",
  "bbob-biobj-mixint_f052_i11_d040 1.0",
  "bbob-biobj-mixint_f052_i11_d080 1.0",
  "bbob-biobj-mixint_f052_i11_d160 1.0",
  "bbob-biobj-mixint_f052_i12_d005 1.0",
  "bbob-biobj-mixint_f052_i12_d010 1.0",
  "bbob-biobj-mixint_f052_i12_d020 1.0",
  "bbob-biobj-mixint_f052_i12_d040 1.0",
  "bbob-biobj-mixint_f052_i12_d080 1.0",
  "bbob-biobj-mixint_f052_i12_d160 1.0",
  "bbob-biobj-mixint_f052_i13_d005 1.0",
  "bbob-biobj-mixint_f052_i13_d010 1.0",
  "bbob-biobj-mixint_f052_i13_d020 1.0",
  "bbob-biobj-mixint_f052_i13_d040 1.0",
  "bbob-biobj-mixint_f052_i13_d080 1.0",
  "bbob-biobj-mixint_f052_i13_d160 1.0",
  "bbob-biobj-mixint_f052_i14_d005 1.0",
  "bbob-biobj-mixint_f052_i14_d010 1.0",
  "bbob-biobj-mixint_f052_i14_d020 1.0",
  "bbob-biobj-mixint_f052_i14_d040 1.0",
  "bbob-biobj-mixint_f052_i14_d080 1.0",
  "bbob-biobj-mixint_f052_i14_d160 1.0",
  "bbob-biobj-mixint_f052_i15_d005 1.0",
  "bbob-biobj-mixint_f052_i15_d010 1.0",
  "bbob-biobj-mixint_f052_i15_d020 1.0",
  "bbob-biobj-mixint_f052_i15_d040 1.0",
  "bbob-biobj-mixint_f052_i15_d080 1.0",
  "bbob-biobj-mixint_f052_i15_d160 1.0",
  "bbob-biobj-mixint_f053_i01_d005 1.0",
  "bbob-biobj-mixint_f053_i01_d010 1.0",
  "bbob-biobj-mixint_f053_i01_d020 1.0",
  "bbob-biobj-mixint_f053_i01_d040 1.0",
  "bbob-biobj-mixint_f053_i01_d080 1.0",
  "bbob-biobj-mixint_f053_i01_d160 1.0",
  "bbob-biobj-mixint_f053_i02_d005 1.0",
  "bbob-biobj-mixint_f053_i02_d010 1.0",
  "bbob-biobj-mixint_f053_i02_d020 1.0",
  "bbob-biobj-mixint_f053_i02_d040 1.0",
  "bbob-biobj-mixint_f053_i02_d080 1.0",
  "bbob-biobj-mixint_f053_i02_d160 1.0",
  "bbob-biobj-mixint_f053_i03_d005 1.0",
  "bbob-biobj-mixint_f053_i03_d010 1.0",
  "bbob-biobj-mixint_f053_i03_d020 1.0",
  "bbob-biobj-mixint_f053_i03_d040 1.0",
  "bbob-biobj-mixint_f053_i03_d080 1.0",
  "bbob-biobj-mixint_f053_i03_d160 1.0",
  "bbob-biobj-mixint_f053_i04_d005 1.0",
  "bbob-biobj-mixint_f053_i04_d010 1.0",
  "bbob-biobj-mixint_f053_i04_d020 1.0",
  "bbob-biobj-mixint_f053_i04_d040 1.0",
  "bbob-biobj-mixint_f053_i04_d080 1.0",
  "bbob-biobj-mixint_f053_i04_d160 1.0",
  "bbob-biobj-mixint_f053_i05_d005 1.0",
  "bbob-biobj-mixint_f053_i05_d010 1.0",
  "bbob-biobj-mixint_f053_i05_d020 1.0",
  "bbob-biobj-mixint_f053_i05_d040 1.0",
  "bbob-biobj-mixint_f053_i05_d080 1.0",
  "bbob-biobj-mixint_f053_i05_d160 1.0",
  "bbob-biobj-mixint_f053_i06_d005 1.0",
  "bbob-biobj-mixint_f053_i06_d010 1.0",
  "bbob-biobj-mixint_f053_i06_d020 1.0",
  "bbob-biobj-mixint_f053_i06_d040 1.0",
  "bbob-biobj-mixint_f053_i06_d080 1.0",
  "bbob-biobj-mixint_f053_i06_d160 1.0",
  "bbob-biobj-mixint_f053_i07_d005 1.0",
  "bbob-biobj-mixint_f053_i07_d010 1.0",
  "bbob-biobj-mixint_f053_i07_d020 1.0",
  "bbob-biobj-mixint_f053_i07_d040 1.0",
  "bbob-biobj-mixint_f053_i07_d080 1.0",
  "bbob-biobj-mixint_f053_i07_d160 1.0",
  "bbob-biobj-mixint_f053_i08_d005 1.0",
  "bbob-biobj-mixint_f053_i08_d010 1.0",
  "bbob-biobj-mixint_f053_i08_d020 1.0",
  "bbob-biobj-mixint_f053_i08_d040 1.0",
  "bbob-biobj-mixint_f053_i08_d080 1.0",
  "bbob-biobj-mixint_f053_i08_d160 1.0",
  "bbob-biobj-mixint_f053_i09_d005 1.0",
  "bbob-biobj-mixint_f053_i09_d010 1.0",
  "bbob-biobj-mixint_f053_i09_d020 1.0",
  "bbob-biobj-mixint_f053_i09_d040 1.0",
  "bbob-biobj-mixint_f053_i09_d080 1.0",
  "bbob-biobj-mixint_f053_i09_d160 1.0",
  "bbob-biobj-mixint_f053_i10_d005 1.0",
  "bbob-biobj-mixint_f053_i10_d010 1.0",
  "bbob-biobj-mixint_f053_i10_d020 1.0",
  "bbob-biobj-mixint_f053_i10_d040 1.0",
  "bbob-biobj-mixint_f053_i10_d080 1.0",
  "bbob-biobj-mixint_f053_i10_d160 1.0",
  "bbob-biobj-mixint_f053_i11_d005 1.0",
  "bbob-biobj-mixint_f053_i11_d010 1.0",
  "bbob-biobj-mixint_f053_i11_d020 1.0",
  "bbob-biobj-mixint_f053_i11_d040 1.0",
  "bbob-biobj-mixint_f053_i11_d080 1.0",
  "bbob-biobj-mixint_f053_i11_d160 1.0",
  "bbob-biobj-mixint_f053_i12_d005 1.0",
  "bbob-biobj-mixint_f053_i12_d010 1.0",
  "bbob-biobj-mixint_f053_i12_d020 1.0",
  "bbob-biobj-mixint_f053_i12_d040 1.0",
  "bbob-biobj-mixint_f053_i12_d080 1.0",
  "bbob-biobj-mixint_f053_i12_d160 1.0",
  "bbob-biobj-mixint_f053_i13_d005 1.0",
  "bbob-biobj-mixint_f053_i13_d010 1.0",
  "bbob-biobj-mixint_f053_i13_d020 1.0",
  "bbob-biobj-mixint_f053_i13_d040 1.0",
  "bbob-biobj-mixint_f053_i13_d080 1.0",
  "bbob-biobj-mixint_f053_i13_d160 1.0",
  "bbob-biobj-mixint_f053_i14_d005 1.0",
  "bbob-biobj-mixint_f053_i14_d010 1.0",
  "bbob-biobj-mixint_f053_i14_d020 1.0",
  "bbob-biobj-mixint_f053_i14_d040 1.0",
  "bbob-biobj-mixint_f053_i14_d080 1.0",
  "bbob-biobj-mixint_f053_i14_d160 1.0",
  "bbob-biobj-mixint_f053_i15_d005 1.0",
  "bbob-biobj-mixint_f053_i15_d010 1.0",
  "bbob-biobj-mixint_f053_i15_d020 1.0",
  "bbob-biobj-mixint_f053_i15_d040 1.0",
  "bbob-biobj-mixint_f053_i15_d080 1.0",
  "bbob-biobj-mixint_f053_i15_d160 1.0",
  "bbob-biobj-mixint_f054_i01_d005 1.0",
  "bbob-biobj-mixint_f054_i01_d010 1.0",
  "bbob-biobj-mixint_f054_i01_d020 1.0",
  "bbob-biobj-mixint_f054_i01_d040 1.0",
  "bbob-biobj-mixint_f054_i01_d080 1.0",
  "bbob-biobj-mixint_f054_i01_d160 1.0",
  "bbob-biobj-mixint_f054_i02_d005 1.0",
  "bbob-biobj-mixint_f054_i02_d010 1.0",
  "bbob-biobj-mixint_f054_i02_d020 1.0",
  "bbob-biobj-mixint_f054_i02_d040 1.0",
  "bbob-biobj-mixint_f054_i02_d080 1.0",
  "bbob-biobj-mixint_f054_i02_d160 1.0",
  "bbob-biobj-mixint_f054_i03_d005 1.0",
  "bbob-biobj-mixint_f054_i03_d010 1.0",
  "bbob-biobj-mixint_f054_i03_d020 1.0",
  "bbob-biobj-mixint_f054_i03_d040 1.0",
  "bbob-biobj-mixint_f054_i03_d080 1.0",
  "bbob-biobj-mixint_f054_i03_d160 1.0",
  "bbob-biobj-mixint_f054_i04_d005 1.0",
  "bbob-biobj-mixint_f054_i04_d010 1.0",
  "bbob-biobj-mixint_f054_i04_d020 1.0",
  "bbob-biobj-mixint_f054_i04_d040 1.0",
  "bbob-biobj-mixint_f054_i04_d080 1.0",
  "bbob-biobj-mixint_f054_i04_d160 1.0",
  "bbob-biobj-mixint_f054_i05_d005 1.0",
  "bbob-biobj-mixint_f054_i05_d010 1.0",
  "bbob-biobj-mixint_f054_i05_d020 1.0",
  "bbob-biobj-mixint_f054_i05_d040 1.0",
  "bbob-biobj-mixint_f054_i05_d080 1.0",
  "bbob-biobj-mixint_f054_i05_d160 1.0",
  "bbob-biobj-mixint_f054_i06_d005 1.0",
  "bbob-biobj-mixint_f054_i06_d010 1.0",
  "bbob-biobj-mixint_f054_i06_d020 1.0",
  "bbob-biobj-mixint_f054_i06_d040 1.0",
  "bbob-biobj-mixint_f054_i06_d080 1.0",
  "bbob-biobj-mixint_f054_i06_d160 1.0",
  "bbob-biobj-mixint_f054_i07_d005 1.0",
  "bbob-biobj-mixint_f054_i07_d010 1.0",
  "bbob-biobj-mixint_f054_i07_d020 1.0",
  "bbob-biobj-mixint_f054_i07_d040 1.0",
  "bbob-biobj-mixint_f054_i07_d080 1.0",
  "bbob-biobj-mixint_f054_i07_d160 1.0",
  "bbob-biobj-mixint_f054_i08_d005 1.0",
  "bbob-biobj-mixint_f054_i08_d010 1.0",
  "bbob-biobj-mixint_f054_i08_d020 1.0",
  "bbob-biobj-mixint_f054_i08_d040 1.0",
  "bbob-biobj-mixint_f054_i08_d080 1.0",
  "bbob-biobj-mixint_f054_i08_d160 1.0",
  "bbob-biobj-mixint_f054_i09_d005 1.0",
  "bbob-biobj-mixint_f054_i09_d010 1.0",
  "bbob-biobj-mixint_f054_i09_d020 1.0",
  "bbob-biobj-mixint_f054_i09_d040 1.0",
  "bbob-biobj-mixint_f054_i09_d080 1.0",
  "bbob-biobj-mixint_f054_i09_d160 1.0",
  "bbob-biobj-mixint_f054_i10_d005 1.0",
  "bbob-biobj-mixint_f054_i10_d010 1.0",
  "bbob-biobj-mixint_f054_i10_d020 1.0",
  "bbob-biobj-mixint_f054_i10_d040 1.0",
  "bbob-biobj-mixint_f054_i10_d080 1.0",
  "bbob-biobj-mixint_f054_i10_d160 1.0",
  "bbob-biobj-mixint_f054_i11_d005 1.0",
  "bbob-biobj-mixint_f054_i11_d010 1.0",
  "bbob-biobj-mixint_f054_i11_d020 1.0",
  "bbob-biobj-mixint_f054_i11_d040 1.0",
  "bbob-biobj-mixint_f054_i11_d080 1.0",
  "bbob-biobj-mixint_f054_i11_d160 1.0",
  "bbob-biobj-mixint_f054_i12_d005 1.0",
  "bbob-biobj-mixint_f054_i12_d010 1.0",
  "bbob-biobj-mixint_f054_i12_d020 1.0",
  "bbob-biobj-mixint_f054_i12_d040 1.0",
  "bbob-biobj-mixint_f054_i12_d080 1.0",
  "bbob-biobj-mixint_f054_i12_d160 1.0",
  "bbob-biobj-mixint_f054_i13_d005 1.0",
  "bbob-biobj-mixint_f054_i13_d010 1.0",
  "bbob-biobj-mixint_f054_i13_d020 1.0",
  "bbob-biobj-mixint_f054_i13_d040 1.0",
  "bbob-biobj-mixint_f054_i13_d080 1.0",
  "bbob-biobj-mixint_f054_i13_d160 1.0",
  "bbob-biobj-mixint_f054_i14_d005 1.0",
  "bbob-biobj-mixint_f054_i14_d010 1.0",
  "bbob-biobj-mixint_f054_i14_d020 1.0",
  "bbob-biobj-mixint_f054_i14_d040 1.0",
  "bbob-biobj-mixint_f054_i14_d080 1.0",
  "bbob-biobj-mixint_f054_i14_d160 1.0",
  "bbob-biobj-mixint_f054_i15_d005 1.0",
  "bbob-biobj-mixint_f054_i15_d010 1.0",
  "bbob-biobj-mixint_f054_i15_d020 1.0",
  "bbob-biobj-mixint_f054_i15_d040 1.0",
  "bbob-biobj-mixint_f054_i15_d080 1.0",
  "bbob-biobj-mixint_f054_i15_d160 1.0",
  "bbob-biobj-mixint_f055_i01_d005 1.0",
  "bbob-biobj-mixint_f055_i01_d010 1.0",
  "bbob-biobj-mixint_f055_i01_d020 1.0",
  "bbob-biobj-mixint_f055_i01_d040 1.0",
  "bbob-biobj-mixint_f055_i01_d080 1.0",
  "bbob-biobj-mixint_f055_i01_d160 1.0",
  "bbob-biobj-mixint_f055_i02_d005 1.0",
  "bbob-biobj-mixint_f055_i02_d010 1.0",
  "bbob-biobj-mixint_f055_i02_d020 1.0",
  "bbob-biobj-mixint_f055_i02_d040 1.0",
  "bbob-biobj-mixint_f055_i02_d080 1.0",
  "bbob-biobj-mixint_f055_i02_d160 1.0",
  "bbob-biobj-mixint_f055_i03_d005 1.0",
  "bbob-biobj-mixint_f055_i03_d010 1.0",
  "bbob-biobj-mixint_f055_i03_d020 1.0",
  "bbob-biobj-mixint_f055_i03_d040 1.0",
  "bbob-biobj-mixint_f055_i03_d080 1.0",
  "bbob-biobj-mixint_f055_i03_d160 1.0",
  "bbob-biobj-mixint_f055_i04_d005 1.0",
  "bbob-biobj-mixint_f055_i04_d010 1.0",
  "bbob-biobj-mixint_f055_i04_d020 1.0",
  "bbob-biobj-mixint_f055_i04_d040 1.0",
  "bbob-biobj-mixint_f055_i04_d080 1.0",
  "bbob-biobj-mixint_f055_i04_d160 1.0",
  "bbob-biobj-mixint_f055_i05_d005 1.0",
  "bbob-biobj-mixint_f055_i05_d010 1.0",
  "bbob-biobj-mixint_f055_i05_d020 1.0",
  "bbob-biobj-mixint_f055_i05_d040 1.0",
  "bbob-biobj-mixint_f055_i05_d080 1.0",
  "bbob-biobj-mixint_f055_i05_d160 1.0",
  "bbob-biobj-mixint_f055_i06_d005 1.0",
  "bbob-biobj-mixint_f055_i06_d010 1.0",
  "bbob-biobj-mixint_f055_i06_d020 1.0",
  "bbob-biobj-mixint_f055_i06_d040 1.0",
  "bbob-biobj-mixint_f055_i06_d080 1.0",
  "bbob-biobj-mixint_f055_i06_d160 1.0",
  "bbob-biobj-mixint_f055_i07_d005 1.0",
  "bbob-biobj-mixint_f055_i07_d010 1.0",
  "bbob-biobj-mixint_f055_i07_d020 1.0",
  "bbob-biobj-mixint_f055_i07_d040 1.0",
  "bbob-biobj-mixint_f055_i07_d080 1.0",
  "bbob-biobj-mixint_f055_i07_d160 1.0",
  "bbob-biobj-mixint_f055_i08_d005 1.0",
  "bbob-biobj-mixint_f055_i08_d010 1.0",
  "bbob-biobj-mixint_f055_i08_d020 1.0",
  "bbob-biobj-mixint_f055_i08_d040 1.0",
  "bbob-biobj-mixint_f055_i08_d080 1.0",
  "bbob-biobj-mixint_f055_i08_d160 1.0",
  "bbob-biobj-mixint_f055_i09_d005 1.0",
  "bbob-biobj-mixint_f055_i09_d010 1.0",
  "bbob-biobj-mixint_f055_i09_d020 1.0",
  "bbob-biobj-mixint_f055_i09_d040 1.0",
  "bbob-biobj-mixint_f055_i09_d080 1.0",
  "bbob-biobj-mixint_f055_i09_d160 1.0",
  "bbob-biobj-mixint_f055_i10_d005 1.0",
  "bbob-biobj-mixint_f055_i10_d010 1.0",
  "bbob-biobj-mixint_f055_i10_d020 1.0",
  "bbob-biobj-mixint_f055_i10_d040 1.0",
  "bbob-biobj-mixint_f055_i10_d080 1.0",
  "bbob-biobj-mixint_f055_i10_d160 1.0",
  "bbob-biobj-mixint_f055_i11_d005 1.0",
  "bbob-biobj-mixint_f055_i11_d010 1.0",
  "bbob-biobj-mixint_f055_i11_d020 1.0",
  "bbob-biobj-mixint_f055_i11_d040 1.0",
  "bbob-biobj-mixint_f055_i11_d080 1.0",
  "bbob-biobj-mixint_f055_i11_d160 1.0",
  "bbob-biobj-mixint_f055_i12_d005 1.0",
  "bbob-biobj-mixint_f055_i12_d010 1.0",
  "bbob-biobj-mixint_f055_i12_d020 1.0",
  "bbob-biobj-mixint_f055_i12_d040 1.0",
  "bbob-biobj-mixint_f055_i12_d080 1.0",
  "bbob-biobj-mixint_f055_i12_d160 1.0",
  "bbob-biobj-mixint_f055_i13_d005 1.0",
  "bbob-biobj-mixint_f055_i13_d010 1.0",
  "bbob-biobj-mixint_f055_i13_d020 1.0",
  "bbob-biobj-mixint_f055_i13_d040 1.0",
  "bbob-biobj-mixint_f055_i13_d080 1.0",
  "bbob-biobj-mixint_f055_i13_d160 1.0",
  "bbob-biobj-mixint_f055_i14_d005 1.0",
  "bbob-biobj-mixint_f055_i14_d010 1.0",
  "bbob-biobj-mixint_f055_i14_d020 1.0",
  "bbob-biobj-mixint_f055_i14_d040 1.0",
  "bbob-biobj-mixint_f055_i14_d080 1.0",
  "bbob-biobj-mixint_f055_i14_d160 1.0",
  "bbob-biobj-mixint_f055_i15_d005 1.0",
  "bbob-biobj-mixint_f055_i15_d010 1.0",
  "bbob-biobj-mixint_f055_i15_d020 1.0",
  "bbob-biobj-mixint_f055_i15_d040 1.0",
  "bbob-biobj-mixint_f055_i15_d080 1.0",
  "bbob-biobj-mixint_f055_i15_d160 1.0",
  "bbob-biobj-mixint_f056_i01_d005 1.0",
  "bbob-biobj-mixint_f056_i01_d010 1.0",
  "bbob-biobj-mixint_f056_i01_d020 1.0",
  "bbob-biobj-mixint_f056_i01_d040 1.0",
  "bbob-biobj-mixint_f056_i01_d080 1.0",
  "bbob-biobj-mixint_f056_i01_d160 1.0",
  "bbob-biobj-mixint_f056_i02_d005 1.0",
  "bbob-biobj-mixint_f056_i02_d010 1.0",
  "bbob-biobj-mixint_f056_i02_d020 1.0",
  "bbob-biobj-mixint_f056_i02_d040 1.0",
  "bbob-biobj-mixint_f056_i02_d080 1.0",
  "bbob-biobj-mixint_f056_i02_d160 1.0",
  "bbob-biobj-mixint_f056_i03_d005 1.0",
  "bbob-biobj-mixint_f056_i03_d010 1.0",
  "bbob-biobj-mixint_f056_i03_d020 1.0",
  "bbob-biobj-mixint_f056_i03_d040 1.0",
  "bbob-biobj-mixint_f056_i03_d080 1.0",
  "bbob-biobj-mixint_f056_i03_d160 1.0",
  "bbob-biobj-mixint_f056_i04_d005 1.0",
  "bbob-biobj-mixint_f056_i04_d010 1.0",
  "bbob-biobj-mixint_f056_i04_d020 1.0",
  "bbob-biobj-mixint_f056_i04_d040 1.0",
  "bbob-biobj-mixint_f056_i04_d080 1.0",
  "bbob-biobj-mixint_f056_i04_d160 1.0",
  "bbob-biobj-mixint_f056_i05_d005 1.0",
  "bbob-biobj-mixint_f056_i05_d010 1.0",
  "bbob-biobj-mixint_f056_i05_d020 1.0",
  "bbob-biobj-mixint_f056_i05_d040 1.0",
  "bbob-biobj-mixint_f056_i05_d080 1.0",
  "bbob-biobj-mixint_f056_i05_d160 1.0",
  "bbob-biobj-mixint_f056_i06_d005 1.0",
  "bbob-biobj-mixint_f056_i06_d010 1.0",
  "bbob-biobj-mixint_f056_i06_d020 1.0",
  "bbob-biobj-mixint_f056_i06_d040 1.0",
  "bbob-biobj-mixint_f056_i06_d080 1.0",
  "bbob-biobj-mixint_f056_i06_d160 1.0",
  "bbob-biobj-mixint_f056_i07_d005 1.0",
  "bbob-biobj-mixint_f056_i07_d010 1.0",
  "bbob-biobj-mixint_f056_i07_d020 1.0",
  "bbob-biobj-mixint_f056_i07_d040 1.0",
  "bbob-biobj-mixint_f056_i07_d080 1.0",
  "bbob-biobj-mixint_f056_i07_d160 1.0",
  "bbob-biobj-mixint_f056_i08_d005 1.0",
  "bbob-biobj-mixint_f056_i08_d010 1.0",
  "bbob-biobj-mixint_f056_i08_d020 1.0",
  "bbob-biobj-mixint_f056_i08_d040 1.0",
  "bbob-biobj-mixint_f056_i08_d080 1.0",
  "bbob-biobj-mixint_f056_i08_d160 1.0",
  "bbob-biobj-mixint_f056_i09_d005 1.0",
  "bbob-biobj-mixint_f056_i09_d010 1.0",
  "bbob-biobj-mixint_f056_i09_d020 1.0",
  "bbob-biobj-mixint_f056_i09_d040 1.0",
  "bbob-biobj-mixint_f056_i09_d080 1.0",
  "bbob-biobj-mixint_f056_i09_d160 1.0",
  "bbob-biobj-mixint_f056_i10_d005 1.0",
  "bbob-biobj-mixint_f056_i10_d010 1.0",
  "bbob-biobj-mixint_f056_i10_d020 1.0",
  "bbob-biobj-mixint_f056_i10_d040 1.0",
  "bbob-biobj-mixint_f056_i10_d080 1.0",
  "bbob-biobj-mixint_f056_i10_d160 1.0",
  "bbob-biobj-mixint_f056_i11_d005 1.0",
  "bbob-biobj-mixint_f056_i11_d010 1.0",
  "bbob-biobj-mixint_f056_i11_d020 1.0",
  "bbob-biobj-mixint_f056_i11_d040 1.0",
  "bbob-biobj-mixint_f056_i11_d080 1.0",
  "bbob-biobj-mixint_f056_i11_d160 1.0",
  "bbob-biobj-mixint_f056_i12_d005 1.0",
  "bbob-biobj-mixint_f056_i12_d010 1.0",
  "bbob-biobj-mixint_f056_i12_d020 1.0",
  "bbob-biobj-mixint_f056_i12_d040 1.0",
  "bbob-biobj-mixint_f056_i12_d080 1.0",
  "bbob-biobj-mixint_f056_i12_d160 1.0",
  "bbob-biobj-mixint_f056_i13_d005 1.0",
  "bbob-biobj-mixint_f056_i13_d010 1.0",
  "bbob-biobj-mixint_f056_i13_d020 1.0",
  "bbob-biobj-mixint_f056_i13_d040 1.0",
  "bbob-biobj-mixint_f056_i13_d080 1.0",
  "bbob-biobj-mixint_f056_i13_d160 1.0",
  "bbob-biobj-mixint_f056_i14_d005 1.0",
  "bbob-biobj-mixint_f056_i14_d010 1.0",
  "bbob-biobj-mixint_f056_i14_d020 1.0",
  "bbob-biobj-mixint_f056_i14_d040 1.0",
  "bbob-biobj-mixint_f056_i14_d080 1.0",
  "bbob-biobj-mixint_f056_i14_d160 1.0",
  "bbob-biobj-mixint_f056_i15_d005 1.0",
  "bbob-biobj-mixint_f056_i15_d010 1.0",
  "bbob-biobj-mixint_f056_i15_d020 1.0",
  "bbob-biobj-mixint_f056_i15_d040 1.0",
  "bbob-biobj-mixint_f056_i15_d080 1.0",
  "bbob-biobj-mixint_f056_i15_d160 1.0",
  "bbob-biobj-mixint_f057_i01_d005 1.0",
  "bbob-biobj-mixint_f057_i01_d010 1.0",
  "bbob-biobj-mixint_f057_i01_d020 1.0",
  "bbob-biobj-mixint_f057_i01_d040 1.0",
  "bbob-biobj-mixint_f057_i01_d080 1.0",
  "bbob-biobj-mixint_f057_i01_d160 1.0",
  "bbob-biobj-mixint_f057_i02_d005 1.0",
  "bbob-biobj-mixint_f057_i02_d010 1.0",
  "bbob-biobj-mixint_f057_i02_d020 1.0",
  "bbob-biobj-mixint_f057_i02_d040 1.0",
  "bbob-biobj-mixint_f057_i02_d080 1.0",
  "bbob-biobj-mixint_f057_i02_d160 1.0",
  "bbob-biobj-mixint_f057_i03_d005 1.0",
  "bbob-biobj-mixint_f057_i03_d010 1.0",
  "bbob-biobj-mixint_f057_i03_d020 1.0",
  "bbob-biobj-mixint_f057_i03_d040 1.0",
  "bbob-biobj-mixint_f057_i03_d080 1.0",
  "bbob-biobj-mixint_f057_i03_d160 1.0",
  "bbob-biobj-mixint_f057_i04_d005 1.0",
  "bbob-biobj-mixint_f057_i04_d010 1.0",
  "bbob-biobj-mixint_f057_i04_d020 1.0",
  "bbob-biobj-mixint_f057_i04_d040 1.0",
  "bbob-biobj-mixint_f057_i04_d080 1.0",
  "bbob-biobj-mixint_f057_i04_d160 1.0",
  "bbob-biobj-mixint_f057_i05_d005 1.0",
  "bbob-biobj-mixint_f057_i05_d010 1.0",
  "bbob-biobj-mixint_f057_i05_d020 1.0",
  "bbob-biobj-mixint_f057_i05_d040 1.0",
  "bbob-biobj-mixint_f057_i05_d080 1.0",
  "bbob-biobj-mixint_f057_i05_d160 1.0",
  "bbob-biobj-mixint_f057_i06_d005 1.0",
  "bbob-biobj-mixint_f057_i06_d010 1.0",
  "bbob-biobj-mixint_f057_i06_d020 1.0",
  "bbob-biobj-mixint_f057_i06_d040 1.0",
  "bbob-biobj-mixint_f057_i06_d080 1.0",
  "bbob-biobj-mixint_f057_i06_d160 1.0",
  "bbob-biobj-mixint_f057_i07_d005 1.0",
  "bbob-biobj-mixint_f057_i07_d010 1.0",
  "bbob-biobj-mixint_f057_i07_d020 1.0",
  "bbob-biobj-mixint_f057_i07_d040 1.0",
  "bbob-biobj-mixint_f057_i07_d080 1.0",
  "bbob-biobj-mixint_f057_i07_d160 1.0",
  "bbob-biobj-mixint_f057_i08_d005 1.0",
  "bbob-biobj-mixint_f057_i08_d010 1.0",
  "bbob-biobj-mixint_f057_i08_d020 1.0",
  "bbob-biobj-mixint_f057_i08_d040 1.0",
  "bbob-biobj-mixint_f057_i08_d080 1.0",
  "bbob-biobj-mixint_f057_i08_d160 1.0",
  "bbob-biobj-mixint_f057_i09_d005 1.0",
  "bbob-biobj-mixint_f057_i09_d010 1.0",
  "bbob-biobj-mixint_f057_i09_d020 1.0",
  "bbob-biobj-mixint_f057_i09_d040 1.0",
  "bbob-biobj-mixint_f057_i09_d080 1.0",
  "bbob-biobj-mixint_f057_i09_d160 1.0",
  "bbob-biobj-mixint_f057_i10_d005 1.0",
  "bbob-biobj-mixint_f057_i10_d010 1.0",
  "bbob-biobj-mixint_f057_i10_d020 1.0",
  "bbob-biobj-mixint_f057_i10_d040 1.0",
  "bbob-biobj-mixint_f057_i10_d080 1.0",
  "bbob-biobj-mixint_f057_i10_d160 1.0",
  "bbob-biobj-mixint_f057_i11_d005 1.0",
  "bbob-biobj-mixint_f057_i11_d010 1.0",
  "bbob-biobj-mixint_f057_i11_d020 1.0",
  "bbob-biobj-mixint_f057_i11_d040 1.0",
  "bbob-biobj-mixint_f057_i11_d080 1.0",
  "bbob-biobj-mixint_f057_i11_d160 1.0",
  "bbob-biobj-mixint_f057_i12_d005 1.0",
  "bbob-biobj-mixint_f057_i12_d010 1.0",
  "bbob-biobj-mixint_f057_i12_d020 1.0",
  "bbob-biobj-mixint_f057_i12_d040 1.0",
  "bbob-biobj-mixint_f057_i12_d080 1.0",
  "bbob-biobj-mixint_f057_i12_d160 1.0",
  "bbob-biobj-mixint_f057_i13_d005 1.0",
  "bbob-biobj-mixint_f057_i13_d010 1.0",
  "bbob-biobj-mixint_f057_i13_d020 1.0",
  "bbob-biobj-mixint_f057_i13_d040 1.0",
  "bbob-biobj-mixint_f057_i13_d080 1.0",
  "bbob-biobj-mixint_f057_i13_d160 1.0",
  "bbob-biobj-mixint_f057_i14_d005 1.0",
  "bbob-biobj-mixint_f057_i14_d010 1.0",
  "bbob-biobj-mixint_f057_i14_d020 1.0",
  "bbob-biobj-mixint_f057_i14_d040 1.0",
  "bbob-biobj-mixint_f057_i14_d080 1.0",
  "bbob-biobj-mixint_f057_i14_d160 1.0",
  "bbob-biobj-mixint_f057_i15_d005 1.0",
  "bbob-biobj-mixint_f057_i15_d010 1.0",
  "bbob-biobj-mixint_f057_i15_d020 1.0",
  "bbob-biobj-mixint_f057_i15_d040 1.0",
  "bbob-biobj-mixint_f057_i15_d080 1.0",
  "bbob-biobj-mixint_f057_i15_d160 1.0",
  "bbob-biobj-mixint_f058_i01_d005 1.0",
  "bbob-biobj-mixint_f058_i01_d010 1.0",
  "bbob-biobj-mixint_f058_i01_d020 1.0",
  "bbob-biobj-mixint_f058_i01_d040 1.0",
  "bbob-biobj-mixint_f058_i01_d080 1.0",
  "bbob-biobj-mixint_f058_i01_d160 1.0",
  "bbob-biobj-mixint_f058_i02_d005 1.0",
  "bbob-biobj-mixint_f058_i02_d010 1.0",
  "bbob-biobj-mixint_f058_i02_d020 1.0",
  "bbob-biobj-mixint_f058_i02_d040 1.0",
  "bbob-biobj-mixint_f058_i02_d080 1.0",
  "bbob-biobj-mixint_f058_i02_d160 1.0",
  "bbob-biobj-mixint_f058_i03_d005 1.0",
  "bbob-biobj-mixint_f058_i03_d010 1.0",
  "bbob-biobj-mixint_f058_i03_d020 1.0",
  "bbob-biobj-mixint_f058_i03_d040 1.0",
  "bbob-biobj-mixint_f058_i03_d080 1.0",
  "bbob-biobj-mixint_f058_i03_d160 1.0",
  "bbob-biobj-mixint_f058_i04_d005 1.0",
  "bbob-biobj-mixint_f058_i04_d010 1.0",
  "bbob-biobj-mixint_f058_i04_d020 1.0",
  "bbob-biobj-mixint_f058_i04_d040 1.0",
  "bbob-biobj-mixint_f058_i04_d080 1.0",
  "bbob-biobj-mixint_f058_i04_d160 1.0",
  "bbob-biobj-mixint_f058_i05_d005 1.0",
  "bbob-biobj-mixint_f058_i05_d010 1.0",
  "bbob-biobj-mixint_f058_i05_d020 1.0",
  "bbob-biobj-mixint_f058_i05_d040 1.0",
  "bbob-biobj-mixint_f058_i05_d080 1.0",
  "bbob-biobj-mixint_f058_i05_d160 1.0",
  "bbob-biobj-mixint_f058_i06_d005 1.0",
  "bbob-biobj-mixint_f058_i06_d010 1.0",
  "bbob-biobj-mixint_f058_i06_d020 1.0",
  "bbob-biobj-mixint_f058_i06_d040 1.0",
  "bbob-biobj-mixint_f058_i06_d080 1.0",
  "bbob-biobj-mixint_f058_i06_d160 1.0",
  "bbob-biobj-mixint_f058_i07_d005 1.0",
  "bbob-biobj-mixint_f058_i07_d010 1.0",
  "bbob-biobj-mixint_f058_i07_d020 1.0",
  "bbob-biobj-mixint_f058_i07_d040 1.0",
  "bbob-biobj-mixint_f058_i07_d080 1.0",
  "bbob-biobj-mixint_f058_i07_d160 1.0",
  "bbob-biobj-mixint_f058_i08_d005 1.0",
  "bbob-biobj-mixint_f058_i08_d010 1.0",
  "bbob-biobj-mixint_f058_i08_d020 1.0",
  "bbob-biobj-mixint_f058_i08_d040 1.0",
  "bbob-biobj-mixint_f058_i08_d080 1.0",
  "bbob-biobj-mixint_f058_i08_d160 1.0",
  "bbob-biobj-mixint_f058_i09_d005 1.0",
  "bbob-biobj-mixint_f058_i09_d010 1.0",
  "bbob-biobj-mixint_f058_i09_d020 1.0",
  "bbob-biobj-mixint_f058_i09_d040 1.0",
  "bbob-biobj-mixint_f058_i09_d080 1.0",
  "bbob-biobj-mixint_f058_i09_d160 1.0",
  "bbob-biobj-mixint_f058_i10_d005 1.0",
  "bbob-biobj-mixint_f058_i10_d010 1.0",
  "bbob-biobj-mixint_f058_i10_d020 1.0",
  "bbob-biobj-mixint_f058_i10_d040 1.0",
  "bbob-biobj-mixint_f058_i10_d080 1.0",
  "bbob-biobj-mixint_f058_i10_d160 1.0",
  "bbob-biobj-mixint_f058_i11_d005 1.0",
  "bbob-biobj-mixint_f058_i11_d010 1.0",
  "bbob-biobj-mixint_f058_i11_d020 1.0",
  "bbob-biobj-mixint_f058_i11_d040 1.0",
  "bbob-biobj-mixint_f058_i11_d080 1.0",
  "bbob-biobj-mixint_f058_i11_d160 1.0",
  "bbob-biobj-mixint_f058_i12_d005 1.0",
  "bbob-biobj-mixint_f058_i12_d010 1.0",
  "bbob-biobj-mixint_f058_i12_d020 1.0",
  "bbob-biobj-mixint_f058_i12_d040 1.0",
  "bbob-biobj-mixint_f058_i12_d080 1.0",
  "bbob-biobj-mixint_f058_i12_d160 1.0",
  "bbob-biobj-mixint_f058_i13_d005 1.0",
  "bbob-biobj-mixint_f058_i13_d010 1.0",
  "bbob-biobj-mixint_f058_i13_d020 1.0",
  "bbob-biobj-mixint_f058_i13_d040 1.0",
  "bbob-biobj-mixint_f058_i13_d080 1.0",
  "bbob-biobj-mixint_f058_i13_d160 1.0",
  "bbob-biobj-mixint_f058_i14_d005 1.0",
  "bbob-biobj-mixint_f058_i14_d010 1.0",
  "bbob-biobj-mixint_f058_i14_d020 1.0",
  "bbob-biobj-mixint_f058_i14_d040 1.0",
  "bbob-biobj-mixint_f058_i14_d080 1.0",
  "bbob-biobj-mixint_f058_i14_d160 1.0",
  "bbob-biobj-mixint_f058_i15_d005 1.0",
  "bbob-biobj-mixint_f058_i15_d010 1.0",
  "bbob-biobj-mixint_f058_i15_d020 1.0",
  "bbob-biobj-mixint_f058_i15_d040 1.0",
  "bbob-biobj-mixint_f058_i15_d080 1.0",
  "bbob-biobj-mixint_f058_i15_d160 1.0",
  "bbob-biobj-mixint_f059_i01_d005 1.0",
  "bbob-biobj-mixint_f059_i01_d010 1.0",
  "bbob-biobj-mixint_f059_i01_d020 1.0",
  "bbob-biobj-mixint_f059_i01_d040 1.0",
  "bbob-biobj-mixint_f059_i01_d080 1.0",
  "bbob-biobj-mixint_f059_i01_d160 1.0",
  "bbob-biobj-mixint_f059_i02_d005 1.0",
  "bbob-biobj-mixint_f059_i02_d010 1.0",
  "bbob-biobj-mixint_f059_i02_d020 1.0",
  "bbob-biobj-mixint_f059_i02_d040 1.0",
  "bbob-biobj-mixint_f059_i02_d080 1.0",
  "bbob-biobj-mixint_f059_i02_d160 1.0",
  "bbob-biobj-mixint_f059_i03_d005 1.0",
  "bbob-biobj-mixint_f059_i03_d010 1.0",
  "bbob-biobj-mixint_f059_i03_d020 1.0",
  "bbob-biobj-mixint_f059_i03_d040 1.0",
  "bbob-biobj-mixint_f059_i03_d080 1.0",
  "bbob-biobj-mixint_f059_i03_d160 1.0",
  "bbob-biobj-mixint_f059_i04_d005 1.0",
  "bbob-biobj-mixint_f059_i04_d010 1.0",
  "bbob-biobj-mixint_f059_i04_d020 1.0",
  "bbob-biobj-mixint_f059_i04_d040 1.0",
  "bbob-biobj-mixint_f059_i04_d080 1.0",
  "bbob-biobj-mixint_f059_i04_d160 1.0",
  "bbob-biobj-mixint_f059_i05_d005 1.0",
  "bbob-biobj-mixint_f059_i05_d010 1.0",
  "bbob-biobj-mixint_f059_i05_d020 1.0",
  "bbob-biobj-mixint_f059_i05_d040 1.0",
  "bbob-biobj-mixint_f059_i05_d080 1.0",
  "bbob-biobj-mixint_f059_i05_d160 1.0",
  "bbob-biobj-mixint_f059_i06_d005 1.0",
  "bbob-biobj-mixint_f059_i06_d010 1.0",
  "bbob-biobj-mixint_f059_i06_d020 1.0",
  "bbob-biobj-mixint_f059_i06_d040 1.0",
  "bbob-biobj-mixint_f059_i06_d080 1.0",
  "bbob-biobj-mixint_f059_i06_d160 1.0",
  "bbob-biobj-mixint_f059_i07_d005 1.0",
  "bbob-biobj-mixint_f059_i07_d010 1.0",
  "bbob-biobj-mixint_f059_i07_d020 1.0",
  "bbob-biobj-mixint_f059_i07_d040 1.0",
  "bbob-biobj-mixint_f059_i07_d080 1.0",
  "bbob-biobj-mixint_f059_i07_d160 1.0",
  "bbob-biobj-mixint_f059_i08_d005 1.0",
  "bbob-biobj-mixint_f059_i08_d010 1.0",
  "bbob-biobj-mixint_f059_i08_d020 1.0",
  "bbob-biobj-mixint_f059_i08_d040 1.0",
  "bbob-biobj-mixint_f059_i08_d080 1.0",
  "bbob-biobj-mixint_f059_i08_d160 1.0",
  "bbob-biobj-mixint_f059_i09_d005 1.0",
  "bbob-biobj-mixint_f059_i09_d010 1.0",
  "bbob-biobj-mixint_f059_i09_d020 1.0",
  "bbob-biobj-mixint_f059_i09_d040 1.0",
  "bbob-biobj-mixint_f059_i09_d080 1.0",
  "bbob-biobj-mixint_f059_i09_d160 1.0",
  "bbob-biobj-mixint_f059_i10_d005 1.0",
  "bbob-biobj-mixint_f059_i10_d010 1.0",
  "bbob-biobj-mixint_f059_i10_d020 1.0",
  "bbob-biobj-mixint_f059_i10_d040 1.0",
  "bbob-biobj-mixint_f059_i10_d080 1.0",
  "bbob-biobj-mixint_f059_i10_d160 1.0",
  "bbob-biobj-mixint_f059_i11_d005 1.0",
  "bbob-biobj-mixint_f059_i11_d010 1.0",
  "bbob-biobj-mixint_f059_i11_d020 1.0",
  "bbob-biobj-mixint_f059_i11_d040 1.0",
  "bbob-biobj-mixint_f059_i11_d080 1.0",
  "bbob-biobj-mixint_f059_i11_d160 1.0",
  "bbob-biobj-mixint_f059_i12_d005 1.0",
  "bbob-biobj-mixint_f059_i12_d010 1.0",
  "bbob-biobj-mixint_f059_i12_d020 1.0",
  "bbob-biobj-mixint_f059_i12_d040 1.0",
  "bbob-biobj-mixint_f059_i12_d080 1.0",
  "bbob-biobj-mixint_f059_i12_d160 1.0",
  "bbob-biobj-mixint_f059_i13_d005 1.0",
  "bbob-biobj-mixint_f059_i13_d010 1.0",
  "bbob-biobj-mixint_f059_i13_d020 1.0",
  "bbob-biobj-mixint_f059_i13_d040 1.0",
  "bbob-biobj-mixint_f059_i13_d080 1.0",
  "bbob-biobj-mixint_f059_i13_d160 1.0",
  "bbob-biobj-mixint_f059_i14_d005 1.0",
  "bbob-biobj-mixint_f059_i14_d010 1.0",
  "bbob-biobj-mixint_f059_i14_d020 1.0",
  "bbob-biobj-mixint_f059_i14_d040 1.0",
  "bbob-biobj-mixint_f059_i14_d080 1.0",
  "bbob-biobj-mixint_f059_i14_d160 1.0",
  "bbob-biobj-mixint_f059_i15_d005 1.0",
  "bbob-biobj-mixint_f059_i15_d010 1.0",
  "bbob-biobj-mixint_f059_i15_d020 1.0",
  "bbob-biobj-mixint_f059_i15_d040 1.0",
  "bbob-biobj-mixint_f059_i15_d080 1.0",
  "bbob-biobj-mixint_f059_i15_d160 1.0",
  "bbob-biobj-mixint_f060_i01_d005 1.0",
  "bbob-biobj-mixint_f060_i01_d010 1.0",
  "bbob-biobj-mixint_f060_i01_d020 1.0",
  "bbob-biobj-mixint_f060_i01_d040 1.0",
  "bbob-biobj-mixint_f060_i01_d080 1.0",
  "bbob-biobj-mixint_f060_i01_d160 1.0",
  "bbob-biobj-mixint_f060_i02_d005 1.0",
  "bbob-biobj-mixint_f060_i02_d010 1.0",
  "bbob-biobj-mixint_f060_i02_d020 1.0",
  "bbob-biobj-mixint_f060_i02_d040 1.0",
  "bbob-biobj-mixint_f060_i02_d080 1.0",
  "bbob-biobj-mixint_f060_i02_d160 1.0",
  "bbob-biobj-mixint_f060_i03_d005 1.0",
  "bbob-biobj-mixint_f060_i03_d010 1.0",
  "bbob-biobj-mixint_f060_i03_d020 1.0",
  "bbob-biobj-mixint_f060_i03_d040 1.0",
  "bbob-biobj-mixint_f060_i03_d080 1.0",
  "bbob-biobj-mixint_f060_i03_d160 1.0",
  "bbob-biobj-mixint_f060_i04_d005 1.0",
  "bbob-biobj-mixint_f060_i04_d010 1.0",
  "bbob-biobj-mixint_f060_i04_d020 1.0",
  "bbob-biobj-mixint_f060_i04_d040 1.0",
  "bbob-biobj-mixint_f060_i04_d080 1.0",
  "bbob-biobj-mixint_f060_i04_d160 1.0",
  "bbob-biobj-mixint_f060_i05_d005 1.0",
  "bbob-biobj-mixint_f060_i05_d010 1.0",
  "bbob-biobj-mixint_f060_i05_d020 1.0",
  "bbob-biobj-mixint_f060_i05_d040 1.0",
  "bbob-biobj-mixint_f060_i05_d080 1.0",
  "bbob-biobj-mixint_f060_i05_d160 1.0",
  "bbob-biobj-mixint_f060_i06_d005 1.0",
  "bbob-biobj-mixint_f060_i06_d010 1.0",
  "bbob-biobj-mixint_f060_i06_d020 1.0",
  "bbob-biobj-mixint_f060_i06_d040 1.0",
  "bbob-biobj-mixint_f060_i06_d080 1.0",
  "bbob-biobj-mixint_f060_i06_d160 1.0",
  "bbob-biobj-mixint_f060_i07_d005 1.0",
  "bbob-biobj-mixint_f060_i07_d010 1.0",
  "bbob-biobj-mixint_f060_i07_d020 1.0",
  "bbob-biobj-mixint_f060_i07_d040 1.0",
  "bbob-biobj-mixint_f060_i07_d080 1.0",
  "bbob-biobj-mixint_f060_i07_d160 1.0",
  "bbob-biobj-mixint_f060_i08_d005 1.0",
  "bbob-biobj-mixint_f060_i08_d010 1.0",
  "bbob-biobj-mixint_f060_i08_d020 1.0",
  "bbob-biobj-mixint_f060_i08_d040 1.0",
  "bbob-biobj-mixint_f060_i08_d080 1.0",
  "bbob-biobj-mixint_f060_i08_d160 1.0",
  "bbob-biobj-mixint_f060_i09_d005 1.0",
  "bbob-biobj-mixint_f060_i09_d010 1.0",
  "bbob-biobj-mixint_f060_i09_d020 1.0",
  "bbob-biobj-mixint_f060_i09_d040 1.0",
  "bbob-biobj-mixint_f060_i09_d080 1.0",
  "bbob-biobj-mixint_f060_i09_d160 1.0",
  "bbob-biobj-mixint_f060_i10_d005 1.0",
  "bbob-biobj-mixint_f060_i10_d010 1.0",
  "bbob-biobj-mixint_f060_i10_d020 1.0",
  "bbob-biobj-mixint_f060_i10_d040 1.0",
  "bbob-biobj-mixint_f060_i10_d080 1.0",
  "bbob-biobj-mixint_f060_i10_d160 1.0",
  "bbob-biobj-mixint_f060_i11_d005 1.0",
  "bbob-biobj-mixint_f060_i11_d010 1.0",
  "bbob-biobj-mixint_f060_i11_d020 1.0",
  "bbob-biobj-mixint_f060_i11_d040 1.0",
  "bbob-biobj-mixint_f060_i11_d080 1.0",
  "bbob-biobj-mixint_f060_i11_d160 1.0",
  "bbob-biobj-mixint_f060_i12_d005 1.0",
  "bbob-biobj-mixint_f060_i12_d010 1.0",
  "bbob-biobj-mixint_f060_i12_d020 1.0",
  "bbob-biobj-mixint_f060_i12_d040 1.0",
  "bbob-biobj-mixint_f060_i12_d080 1.0",
  "bbob-biobj-mixint_f060_i12_d160 1.0",
  "bbob-biobj-mixint_f060_i13_d005 1.0",
  "bbob-biobj-mixint_f060_i13_d010 1.0",
  "bbob-biobj-mixint_f060_i13_d020 1.0",
  "bbob-biobj-mixint_f060_i13_d040 1.0",
  "bbob-biobj-mixint_f060_i13_d080 1.0",
  "bbob-biobj-mixint_f060_i13_d160 1.0",
  "bbob-biobj-mixint_f060_i14_d005 1.0",
  "bbob-biobj-mixint_f060_i14_d010 1.0",
  "bbob-biobj-mixint_f060_i14_d020 1.0",
  "bbob-biobj-mixint_f060_i14_d040 1.0",
  "bbob-biobj-mixint_f060_i14_d080 1.0",
  "bbob-biobj-mixint_f060_i14_d160 1.0",
  "bbob-biobj-mixint_f060_i15_d005 1.0",
  "bbob-biobj-mixint_f060_i15_d010 1.0",
  "bbob-biobj-mixint_f060_i15_d020 1.0",
  "bbob-biobj-mixint_f060_i15_d040 1.0",
  "bbob-biobj-mixint_f060_i15_d080 1.0",
  "bbob-biobj-mixint_f060_i15_d160 1.0",
  "bbob-biobj-mixint_f061_i01_d005 1.0",
  "bbob-biobj-mixint_f061_i01_d010 1.0",
  "bbob-biobj-mixint_f061_i01_d020 1.0",
  "bbob-biobj-mixint_f061_i01_d040 1.0",
  "bbob-biobj-mixint_f061_i01_d080 1.0",
  "bbob-biobj-mixint_f061_i01_d160 1.0",
  "bbob-biobj-mixint_f061_i02_d005 1.0",
  "bbob-biobj-mixint_f061_i02_d010 1.0",
  "bbob-biobj-mixint_f061_i02_d020 1.0",
  "bbob-biobj-mixint_f061_i02_d040 1.0",
  "bbob-biobj-mixint_f061_i02_d080 1.0",
  "bbob-biobj-mixint_f061_i02_d160 1.0",
  "bbob-biobj-mixint_f061_i03_d005 1.0",
  "bbob-biobj-mixint_f061_i03_d010 1.0",
  "bbob-biobj-mixint_f061_i03_d020 1.0",
  "bbob-biobj-mixint_f061_i03_d040 1.0",
  "bbob-biobj-mixint_f061_i03_d080 1.0",
  "bbob-biobj-mixint_f061_i03_d160 1.0",
  "bbob-biobj-mixint_f061_i04_d005 1.0",
  "bbob-biobj-mixint_f061_i04_d010 1.0",
  "bbob-biobj-mixint_f061_i04_d020 1.0",
  "bbob-biobj-mixint_f061_i04_d040 1.0",
  "bbob-biobj-mixint_f061_i04_d080 1.0",
  "bbob-biobj-mixint_f061_i04_d160 1.0",
  "bbob-biobj-mixint_f061_i05_d005 1.0",
  "bbob-biobj-mixint_f061_i05_d010 1.0",
  "bbob-biobj-mixint_f061_i05_d020 1.0",
  "bbob-biobj-mixint_f061_i05_d040 1.0",
  "bbob-biobj-mixint_f061_i05_d080 1.0",
  "bbob-biobj-mixint_f061_i05_d160 1.0",
  "bbob-biobj-mixint_f061_i06_d005 1.0",
  "bbob-biobj-mixint_f061_i06_d010 1.0",
  "bbob-biobj-mixint_f061_i06_d020 1.0",
  "bbob-biobj-mixint_f061_i06_d040 1.0",
  "bbob-biobj-mixint_f061_i06_d080 1.0",
  "bbob-biobj-mixint_f061_i06_d160 1.0",
  "bbob-biobj-mixint_f061_i07_d005 1.0",
  "bbob-biobj-mixint_f061_i07_d010 1.0",
  "bbob-biobj-mixint_f061_i07_d020 1.0",
  "bbob-biobj-mixint_f061_i07_d040 1.0",
  "bbob-biobj-mixint_f061_i07_d080 1.0",
  "bbob-biobj-mixint_f061_i07_d160 1.0",
  "bbob-biobj-mixint_f061_i08_d005 1.0",
  "bbob-biobj-mixint_f061_i08_d010 1.0",
  "bbob-biobj-mixint_f061_i08_d020 1.0",
  "bbob-biobj-mixint_f061_i08_d040 1.0",
  "bbob-biobj-mixint_f061_i08_d080 1.0",
  "bbob-biobj-mixint_f061_i08_d160 1.0",
  "bbob-biobj-mixint_f061_i09_d005 1.0",
  "bbob-biobj-mixint_f061_i09_d010 1.0",
  "bbob-biobj-mixint_f061_i09_d020 1.0",
  "bbob-biobj-mixint_f061_i09_d040 1.0",
  "bbob-biobj-mixint_f061_i09_d080 1.0",
  "bbob-biobj-mixint_f061_i09_d160 1.0",
  "bbob-biobj-mixint_f061_i10_d005 1.0",
  "bbob-biobj-mixint_f061_i10_d010 1.0",
  "bbob-biobj-mixint_f061_i10_d020 1.0",
  "bbob-biobj-mixint_f061_i10_d040 1.0",
  "bbob-biobj-mixint_f061_i10_d080 1.0",
  "bbob-biobj-mixint_f061_i10_d160 1.0",
  "bbob-biobj-mixint_f061_i11_d005 1.0",
  "bbob-biobj-mixint_f061_i11_d010 1.0",
  "bbob-biobj-mixint_f061_i11_d020 1.0",
  "bbob-biobj-mixint_f061_i11_d040 1.0",
  "bbob-biobj-mixint_f061_i11_d080 1.0",
  "bbob-biobj-mixint_f061_i11_d160 1.0",
  "bbob-biobj-mixint_f061_i12_d005 1.0",
  "bbob-biobj-mixint_f061_i12_d010 1.0",
  "bbob-biobj-mixint_f061_i12_d020 1.0",
  "bbob-biobj-mixint_f061_i12_d040 1.0",
  "bbob-biobj-mixint_f061_i12_d080 1.0",
  "bbob-biobj-mixint_f061_i12_d160 1.0",
  "bbob-biobj-mixint_f061_i13_d005 1.0",
  "bbob-biobj-mixint_f061_i13_d010 1.0",
  "bbob-biobj-mixint_f061_i13_d020 1.0",
  "bbob-biobj-mixint_f061_i13_d040 1.0",
  "bbob-biobj-mixint_f061_i13_d080 1.0",
  "bbob-biobj-mixint_f061_i13_d160 1.0",
  "bbob-biobj-mixint_f061_i14_d005 1.0",
  "bbob-biobj-mixint_f061_i14_d010 1.0",
  "bbob-biobj-mixint_f061_i14_d020 1.0",
  "bbob-biobj-mixint_f061_i14_d040 1.0",
  "bbob-biobj-mixint_f061_i14_d080 1.0",
  "bbob-biobj-mixint_f061_i14_d160 1.0",
  "bbob-biobj-mixint_f061_i15_d005 1.0",
  "bbob-biobj-mixint_f061_i15_d010 1.0",
  "bbob-biobj-mixint_f061_i15_d020 1.0",
  "bbob-biobj-mixint_f061_i15_d040 1.0",
  "bbob-biobj-mixint_f061_i15_d080 1.0",
  "bbob-biobj-mixint_f061_i15_d160 1.0",
  "bbob-biobj-mixint_f062_i01_d005 1.0",
  "bbob-biobj-mixint_f062_i01_d010 1.0",
  "bbob-biobj-mixint_f062_i01_d020 1.0",
  "bbob-biobj-mixint_f062_i01_d040 1.0",
  "bbob-biobj-mixint_f062_i01_d080 1.0",
  "bbob-biobj-mixint_f062_i01_d160 1.0",
  "bbob-biobj-mixint_f062_i02_d005 1.0",
  "bbob-biobj-mixint_f062_i02_d010 1.0",
  "bbob-biobj-mixint_f062_i02_d020 1.0",
  "bbob-biobj-mixint_f062_i02_d040 1.0",
  "bbob-biobj-mixint_f062_i02_d080 1.0",
  "bbob-biobj-mixint_f062_i02_d160 1.0",
  "bbob-biobj-mixint_f062_i03_d005 1.0",
  "bbob-biobj-mixint_f062_i03_d010 1.0",
  "bbob-biobj-mixint_f062_i03_d020 1.0",
  "bbob-biobj-mixint_f062_i03_d040 1.0",
  "bbob-biobj-mixint_f062_i03_d080 1.0",
  "bbob-biobj-mixint_f062_i03_d160 1.0",
  "bbob-biobj-mixint_f062_i04_d005 1.0",
  "bbob-biobj-mixint_f062_i04_d010 1.0",
  "bbob-biobj-mixint_f062_i04_d020 1.0",
  "bbob-biobj-mixint_f062_i04_d040 1.0",
  "bbob-biobj-mixint_f062_i04_d080 1.0",
  "bbob-biobj-mixint_f062_i04_d160 1.0",
  "bbob-biobj-mixint_f062_i05_d005 1.0",
  "bbob-biobj-mixint_f062_i05_d010 1.0",
  "bbob-biobj-mixint_f062_i05_d020 1.0",
  "bbob-biobj-mixint_f062_i05_d040 1.0",
  "bbob-biobj-mixint_f062_i05_d080 1.0",
  "bbob-biobj-mixint_f062_i05_d160 1.0",
  "bbob-biobj-mixint_f062_i06_d005 1.0",
  "bbob-biobj-mixint_f062_i06_d010 1.0",
  "bbob-biobj-mixint_f062_i06_d020 1.0",
  "bbob-biobj-mixint_f062_i06_d040 1.0",
  "bbob-biobj-mixint_f062_i06_d080 1.0",
  "bbob-biobj-mixint_f062_i06_d160 1.0",
  "bbob-biobj-mixint_f062_i07_d005 1.0",
  "bbob-biobj-mixint_f062_i07_d010 1.0",
  "bbob-biobj-mixint_f062_i07_d020 1.0",
  "bbob-biobj-mixint_f062_i07_d040 1.0",
  "bbob-biobj-mixint_f062_i07_d080 1.0",
  "bbob-biobj-mixint_f062_i07_d160 1.0",
  "bbob-biobj-mixint_f062_i08_d005 1.0",
  "bbob-biobj-mixint_f062_i08_d010 1.0",
  "bbob-biobj-mixint_f062_i08_d020 1.0",
  "bbob-biobj-mixint_f062_i08_d040 1.0",
  "bbob-biobj-mixint_f062_i08_d080 1.0",
  "bbob-biobj-mixint_f062_i08_d160 1.0",
  "bbob-biobj-mixint_f062_i09_d005 1.0",
  "bbob-biobj-mixint_f062_i09_d010 1.0",
  "bbob-biobj-mixint_f062_i09_d020 1.0",
  "bbob-biobj-mixint_f062_i09_d040 1.0",
  "bbob-biobj-mixint_f062_i09_d080 1.0",
  "bbob-biobj-mixint_f062_i09_d160 1.0",
  "bbob-biobj-mixint_f062_i10_d005 1.0",
  "bbob-biobj-mixint_f062_i10_d010 1.0",
  "bbob-biobj-mixint_f062_i10_d020 1.0",
  "bbob-biobj-mixint_f062_i10_d040 1.0",
  "bbob-biobj-mixint_f062_i10_d080 1.0",
  "bbob-biobj-mixint_f062_i10_d160 1.0",
  "bbob-biobj-mixint_f062_i11_d005 1.0",
  "bbob-biobj-mixint_f062_i11_d010 1.0",
  "bbob-biobj-mixint_f062_i11_d020 1.0",
  "bbob-biobj-mixint_f062_i11_d040 1.0",
  "bbob-biobj-mixint_f062_i11_d080 1.0",
  "bbob-biobj-mixint_f062_i11_d160 1.0",
  "bbob-biobj-mixint_f062_i12_d005 1.0",
  "bbob-biobj-mixint_f062_i12_d010 1.0",
  "bbob-biobj-mixint_f062_i12_d020 1.0",
  "bbob-biobj-mixint_f062_i12_d040 1.0",
  "bbob-biobj-mixint_f062_i12_d080 1.0",
  "bbob-biobj-mixint_f062_i12_d160 1.0",
  "bbob-biobj-mixint_f062_i13_d005 1.0",
  "bbob-biobj-mixint_f062_i13_d010 1.0",
  "bbob-biobj-mixint_f062_i13_d020 1.0",
  "bbob-biobj-mixint_f062_i13_d040 1.0",
  "bbob-biobj-mixint_f062_i13_d080 1.0",
  "bbob-biobj-mixint_f062_i13_d160 1.0",
  "bbob-biobj-mixint_f062_i14_d005 1.0",
  "bbob-biobj-mixint_f062_i14_d010 1.0",
  "bbob-biobj-mixint_f062_i14_d020 1.0",
  "bbob-biobj-mixint_f062_i14_d040 1.0",
  "bbob-biobj-mixint_f062_i14_d080 1.0",
  "bbob-biobj-mixint_f062_i14_d160 1.0",
  "bbob-biobj-mixint_f062_i15_d005 1.0",
  "bbob-biobj-mixint_f062_i15_d010 1.0",
  "bbob-biobj-mixint_f062_i15_d020 1.0",
  "bbob-biobj-mixint_f062_i15_d040 1.0",
  "bbob-biobj-mixint_f062_i15_d080 1.0",
  "bbob-biobj-mixint_f062_i15_d160 1.0",
  "bbob-biobj-mixint_f063_i01_d005 1.0",
  "bbob-biobj-mixint_f063_i01_d010 1.0",
  "bbob-biobj-mixint_f063_i01_d020 1.0",
  "bbob-biobj-mixint_f063_i01_d040 1.0",
  "bbob-biobj-mixint_f063_i01_d080 1.0",
  "bbob-biobj-mixint_f063_i01_d160 1.0",
  "bbob-biobj-mixint_f063_i02_d005 1.0",
  "bbob-biobj-mixint_f063_i02_d010 1.0",
  "bbob-biobj-mixint_f063_i02_d020 1.0",
  "bbob-biobj-mixint_f063_i02_d040 1.0",
  "bbob-biobj-mixint_f063_i02_d080 1.0",
  "bbob-biobj-mixint_f063_i02_d160 1.0",
  "bbob-biobj-mixint_f063_i03_d005 1.0",
  "bbob-biobj-mixint_f063_i03_d010 1.0",
  "bbob-biobj-mixint_f063_i03_d020 1.0",
  "bbob-biobj-mixint_f063_i03_d040 1.0",
  "bbob-biobj-mixint_f063_i03_d080 1.0",
  "bbob-biobj-mixint_f063_i03_d160 1.0",
  "bbob-biobj-mixint_f063_i04_d005 1.0",
  "bbob-biobj-mixint_f063_i04_d010 1.0",
  "bbob-biobj-mixint_f063_i04_d020 1.0",
  "bbob-biobj-mixint_f063_i04_d040 1.0",
  "bbob-biobj-mixint_f063_i04_d080 1.0",
  "bbob-biobj-mixint_f063_i04_d160 1.0",
  "bbob-biobj-mixint_f063_i05_d005 1.0",
  "bbob-biobj-mixint_f063_i05_d010 1.0",
  "bbob-biobj-mixint_f063_i05_d020 1.0",
  "bbob-biobj-mixint_f063_i05_d040 1.0",
  "bbob-biobj-mixint_f063_i05_d080 1.0",
  "bbob-biobj-mixint_f063_i05_d160 1.0",
  "bbob-biobj-mixint_f063_i06_d005 1.0",
  "bbob-biobj-mixint_f063_i06_d010 1.0",
  "bbob-biobj-mixint_f063_i06_d020 1.0",
  "bbob-biobj-mixint_f063_i06_d040 1.0",
  "bbob-biobj-mixint_f063_i06_d080 1.0",
  "bbob-biobj-mixint_f063_i06_d160 1.0",
  "bbob-biobj-mixint_f063_i07_d005 1.0",
  "bbob-biobj-mixint_f063_i07_d010 1.0",
  "bbob-biobj-mixint_f063_i07_d020 1.0",
  "bbob-biobj-mixint_f063_i07_d040 1.0",
  "bbob-biobj-mixint_f063_i07_d080 1.0",
  "bbob-biobj-mixint_f063_i07_d160 1.0",
  "bbob-biobj-mixint_f063_i08_d005 1.0",
  "bbob-biobj-mixint_f063_i08_d010 1.0",
  "bbob-biobj-mixint_f063_i08_d020 1.0",
  "bbob-biobj-mixint_f063_i08_d040 1.0",
  "bbob-biobj-mixint_f063_i08_d080 1.0",
  "bbob-biobj-mixint_f063_i08_d160 1.0",
  "bbob-biobj-mixint_f063_i09_d005 1.0",
  "bbob-biobj-mixint_f063_i09_d010 1.0",
  "bbob-biobj-mixint_f063_i09_d020 1.0",
  "bbob-biobj-mixint_f063_i09_d040 1.0",
  "bbob-biobj-mixint_f063_i09_d080 1.0",
  "bbob-biobj-mixint_f063_i09_d160 1.0",
  "bbob-biobj-mixint_f063_i10_d005 1.0",
  "bbob-biobj-mixint_f063_i10_d010 1.0",
  "bbob-biobj-mixint_f063_i10_d020 1.0",
  "bbob-biobj-mixint_f063_i10_d040 1.0",
  "bbob-biobj-mixint_f063_i10_d080 1.0",
  "bbob-biobj-mixint_f063_i10_d160 1.0",
  "bbob-biobj-mixint_f063_i11_d005 1.0",
  "bbob-biobj-mixint_f063_i11_d010 1.0",
  "bbob-biobj-mixint_f063_i11_d020 1.0",
  "bbob-biobj-mixint_f063_i11_d040 1.0",
  "bbob-biobj-mixint_f063_i11_d080 1.0",
  "bbob-biobj-mixint_f063_i11_d160 1.0",
  "bbob-biobj-mixint_f063_i12_d005 1.0",
  "bbob-biobj-mixint_f063_i12_d010 1.0",
  "bbob-biobj-mixint_f063_i12_d020 1.0",
  "bbob-biobj-mixint_f063_i12_d040 1.0",
  "bbob-biobj-mixint_f063_i12_d080 1.0",
  "bbob-biobj-mixint_f063_i12_d160 1.0",
  "bbob-biobj-mixint_f063_i13_d005 1.0",
  "bbob-biobj-mixint_f063_i13_d010 1.0",
  "bbob-biobj-mixint_f063_i13_d020 1.0",
  "bbob-biobj-mixint_f063_i13_d040 1.0",
  "bbob-biobj-mixint_f063_i13_d080 1.0",
  "bbob-biobj-mixint_f063_i13_d160 1.0",
  "bbob-biobj-mixint_f063_i14_d005 1.0",
  "bbob-biobj-mixint_f063_i14_d010 1.0",
  "bbob-biobj-mixint_f063_i14_d020 1.0",
  "bbob-biobj-mixint_f063_i14_d040 1.0",
  "bbob-biobj-mixint_f063_i14_d080 1.0",
  "bbob-biobj-mixint_f063_i14_d160 1.0",
  "bbob-biobj-mixint_f063_i15_d005 1.0",
  "bbob-biobj-mixint_f063_i15_d010 1.0",
  "bbob-biobj-mixint_f063_i15_d020 1.0",
  "bbob-biobj-mixint_f063_i15_d040 1.0",
  "bbob-biobj-mixint_f063_i15_d080 1.0",
  "bbob-biobj-mixint_f063_i15_d160 1.0",
  "bbob-biobj-mixint_f064_i01_d005 1.0",
  "bbob-biobj-mixint_f064_i01_d010 1.0",
  "bbob-biobj-mixint_f064_i01_d020 1.0",
  "bbob-biobj-mixint_f064_i01_d040 1.0",
  "bbob-biobj-mixint_f064_i01_d080 1.0",
  "bbob-biobj-mixint_f064_i01_d160 1.0",
  "bbob-biobj-mixint_f064_i02_d005 1.0",
  "bbob-biobj-mixint_f064_i02_d010 1.0",
  "bbob-biobj-mixint_f064_i02_d020 1.0",
  "bbob-biobj-mixint_f064_i02_d040 1.0",
  "bbob-biobj-mixint_f064_i02_d080 1.0",
  "bbob-biobj-mixint_f064_i02_d160 1.0",
  "bbob-biobj-mixint_f064_i03_d005 1.0",
  "bbob-biobj-mixint_f064_i03_d010 1.0",
  "bbob-biobj-mixint_f064_i03_d020 1.0",
  "bbob-biobj-mixint_f064_i03_d040 1.0",
  "bbob-biobj-mixint_f064_i03_d080 1.0",
  "bbob-biobj-mixint_f064_i03_d160 1.0",
  "bbob-biobj-mixint_f064_i04_d005 1.0",
  "bbob-biobj-mixint_f064_i04_d010 1.0",
  "bbob-biobj-mixint_f064_i04_d020 1.0",
  "bbob-biobj-mixint_f064_i04_d040 1.0",
  "bbob-biobj-mixint_f064_i04_d080 1.0",
  "bbob-biobj-mixint_f064_i04_d160 1.0",
  "bbob-biobj-mixint_f064_i05_d005 1.0",
  "bbob-biobj-mixint_f064_i05_d010 1.0",
  "bbob-biobj-mixint_f064_i05_d020 1.0",
  "bbob-biobj-mixint_f064_i05_d040 1.0",
  "bbob-biobj-mixint_f064_i05_d080 1.0",
  "bbob-biobj-mixint_f064_i05_d160 1.0",
  "bbob-biobj-mixint_f064_i06_d005 1.0",
  "bbob-biobj-mixint_f064_i06_d010 1.0",
  "bbob-biobj-mixint_f064_i06_d020 1.0",
  "bbob-biobj-mixint_f064_i06_d040 1.0",
  "bbob-biobj-mixint_f064_i06_d080 1.0",
  "bbob-biobj-mixint_f064_i06_d160 1.0",
  "bbob-biobj-mixint_f064_i07_d005 1.0",
  "bbob-biobj-mixint_f064_i07_d010 1.0",
  "bbob-biobj-mixint_f064_i07_d020 1.0",
  "bbob-biobj-mixint_f064_i07_d040 1.0",
  "bbob-biobj-mixint_f064_i07_d080 1.0",
  "bbob-biobj-mixint_f064_i07_d160 1.0",
  "bbob-biobj-mixint_f064_i08_d005 1.0",
  "bbob-biobj-mixint_f064_i08_d010 1.0",
  "bbob-biobj-mixint_f064_i08_d020 1.0",
  "bbob-biobj-mixint_f064_i08_d040 1.0",
  "bbob-biobj-mixint_f064_i08_d080 1.0",
  "bbob-biobj-mixint_f064_i08_d160 1.0",
  "bbob-biobj-mixint_f064_i09_d005 1.0",
  "bbob-biobj-mixint_f064_i09_d010 1.0",
  "bbob-biobj-mixint_f064_i09_d020 1.0",
  "bbob-biobj-mixint_f064_i09_d040 1.0",
  "bbob-biobj-mixint_f064_i09_d080 1.0",
  "bbob-biobj-mixint_f064_i09_d160 1.0",
  "bbob-biobj-mixint_f064_i10_d005 1.0",
  "bbob-biobj-mixint_f064_i10_d010 1.0",
  "bbob-biobj-mixint_f064_i10_d020 1.0",
  "bbob-biobj-mixint_f064_i10_d040 1.0",
  "bbob-biobj-mixint_f064_i10_d080 1.0",
  "bbob-biobj-mixint_f064_i10_d160 1.0",
  "bbob-biobj-mixint_f064_i11_d005 1.0",
  "bbob-biobj-mixint_f064_i11_d010 1.0",
  "bbob-biobj-mixint_f064_i11_d020 1.0",
  "bbob-biobj-mixint_f064_i11_d040 1.0",
  "bbob-biobj-mixint_f064_i11_d080 1.0",
  "bbob-biobj-mixint_f064_i11_d160 1.0",
  "bbob-biobj-mixint_f064_i12_d005 1.0",
  "bbob-biobj-mixint_f064_i12_d010 1.0",
  "bbob-biobj-mixint_f064_i12_d020 1.0",
  "bbob-biobj-mixint_f064_i12_d040 1.0",
  "bbob-biobj-mixint_f064_i12_d080 1.0",
  "bbob-biobj-mixint_f064_i12_d160 1.0",
  "bbob-biobj-mixint_f064_i13_d005 1.0",
  "bbob-biobj-mixint_f064_i13_d010 1.0",
  "bbob-biobj-mixint_f064_i13_d020 1.0",
  "bbob-biobj-mixint_f064_i13_d040 1.0",
  "bbob-biobj-mixint_f064_i13_d080 1.0",
  "bbob-biobj-mixint_f064_i13_d160 1.0",
  "bbob-biobj-mixint_f064_i14_d005 1.0",
  "bbob-biobj-mixint_f064_i14_d010 1.0",
  "bbob-biobj-mixint_f064_i14_d020 1.0",
  "bbob-biobj-mixint_f064_i14_d040 1.0",
  "bbob-biobj-mixint_f064_i14_d080 1.0",
  "bbob-biobj-mixint_f064_i14_d160 1.0",
  "bbob-biobj-mixint_f064_i15_d005 1.0",
  "bbob-biobj-mixint_f064_i15_d010 1.0",
  "bbob-biobj-mixint_f064_i15_d020 1.0",
  "bbob-biobj-mixint_f064_i15_d040 1.0",
  "bbob-biobj-mixint_f064_i15_d080 1.0",
  "bbob-biobj-mixint_f064_i15_d160 1.0",
  "bbob-biobj-mixint_f065_i01_d005 1.0",
  "bbob-biobj-mixint_f065_i01_d010 1.0",
  "bbob-biobj-mixint_f065_i01_d020 1.0",
  "bbob-biobj-mixint_f065_i01_d040 1.0",
  "bbob-biobj-mixint_f065_i01_d080 1.0",
  "bbob-biobj-mixint_f065_i01_d160 1.0",
  "bbob-biobj-mixint_f065_i02_d005 1.0",
  "bbob-biobj-mixint_f065_i02_d010 1.0",
  "bbob-biobj-mixint_f065_i02_d020 1.0",
  "bbob-biobj-mixint_f065_i02_d040 1.0",
  "bbob-biobj-mixint_f065_i02_d080 1.0",
  "bbob-biobj-mixint_f065_i02_d160 1.0",
  "bbob-biobj-mixint_f065_i03_d005 1.0",
  "bbob-biobj-mixint_f065_i03_d010 1.0",
  "bbob-biobj-mixint_f065_i03_d020 1.0",
  "bbob-biobj-mixint_f065_i03_d040 1.0",
  "bbob-biobj-mixint_f065_i03_d080 1.0",
  "bbob-biobj-mixint_f065_i03_d160 1.0",
  "bbob-biobj-mixint_f065_i04_d005 1.0",
  "bbob-biobj-mixint_f065_i04_d010 1.0",
  "bbob-biobj-mixint_f065_i04_d020 1.0",
  "bbob-biobj-mixint_f065_i04_d040 1.0",
  "bbob-biobj-mixint_f065_i04_d080 1.0",
  "bbob-biobj-mixint_f065_i04_d160 1.0",
  "bbob-biobj-mixint_f065_i05_d005 1.0",
  "bbob-biobj-mixint_f065_i05_d010 1.0",
  "bbob-biobj-mixint_f065_i05_d020 1.0",
  "bbob-biobj-mixint_f065_i05_d040 1.0",
  "bbob-biobj-mixint_f065_i05_d080 1.0",
  "bbob-biobj-mixint_f065_i05_d160 1.0",
  "bbob-biobj-mixint_f065_i06_d005 1.0",
  "bbob-biobj-mixint_f065_i06_d010 1.0",
  "bbob-biobj-mixint_f065_i06_d020 1.0",
  "bbob-biobj-mixint_f065_i06_d040 1.0",
  "bbob-biobj-mixint_f065_i06_d080 1.0",
  "bbob-biobj-mixint_f065_i06_d160 1.0",
  "bbob-biobj-mixint_f065_i07_d005 1.0",
  "bbob-biobj-mixint_f065_i07_d010 1.0",
  "bbob-biobj-mixint_f065_i07_d020 1.0",
  "bbob-biobj-mixint_f065_i07_d040 1.0",
  "bbob-biobj-mixint_f065_i07_d080 1.0",
  "bbob-biobj-mixint_f065_i07_d160 1.0",
  "bbob-biobj-mixint_f065_i08_d005 1.0",
  "bbob-biobj-mixint_f065_i08_d010 1.0",
  "bbob-biobj-mixint_f065_i08_d020 1.0",
  "bbob-biobj-mixint_f065_i08_d040 1.0",
  "bbob-biobj-mixint_f065_i08_d080 1.0",
  "bbob-biobj-mixint_f065_i08_d160 1.0",
  "bbob-biobj-mixint_f065_i09_d005 1.0",
  "bbob-biobj-mixint_f065_i09_d010 1.0",
  "bbob-biobj-mixint_f065_i09_d020 1.0",
  "bbob-biobj-mixint_f065_i09_d040 1.0",
  "bbob-biobj-mixint_f065_i09_d080 1.0",
  "bbob-biobj-mixint_f065_i09_d160 1.0",
  "bbob-biobj-mixint_f065_i10_d005 1.0",
  "bbob-biobj-mixint_f065_i10_d010 1.0",
  "bbob-biobj-mixint_f065_i10_d020 1.0",
  "bbob-biobj-mixint_f065_i10_d040 1.0",
  "bbob-biobj-mixint_f065_i10_d080 1.0",
  "bbob-biobj-mixint_f065_i10_d160 1.0",
  "bbob-biobj-mixint_f065_i11_d005 1.0",
  "bbob-biobj-mixint_f065_i11_d010 1.0",
  "bbob-biobj-mixint_f065_i11_d020 1.0",
  "bbob-biobj-mixint_f065_i11_d040 1.0",
  "bbob-biobj-mixint_f065_i11_d080 1.0",
  "bbob-biobj-mixint_f065_i11_d160 1.0",
  "bbob-biobj-mixint_f065_i12_d005 1.0",
  "bbob-biobj-mixint_f065_i12_d010 1.0",
  "bbob-biobj-mixint_f065_i12_d020 1.0",
  "bbob-biobj-mixint_f065_i12_d040 1.0",
  "bbob-biobj-mixint_f065_i12_d080 1.0",
  "bbob-biobj-mixint_f065_i12_d160 1.0",
  "bbob-biobj-mixint_f065_i13_d005 1.0",
  "bbob-biobj-mixint_f065_i13_d010 1.0",
  "bbob-biobj-mixint_f065_i13_d020 1.0",
  "bbob-biobj-mixint_f065_i13_d040 1.0",
  "bbob-biobj-mixint_f065_i13_d080 1.0",
  "bbob-biobj-mixint_f065_i13_d160 1.0",
  "bbob-biobj-mixint_f065_i14_d005 1.0",
  "bbob-biobj-mixint_f065_i14_d010 1.0",
  "bbob-biobj-mixint_f065_i14_d020 1.0",
  "bbob-biobj-mixint_f065_i14_d040 1.0",
  "bbob-biobj-mixint_f065_i14_d080 1.0",
  "bbob-biobj-mixint_f065_i14_d160 1.0",
  "bbob-biobj-mixint_f065_i15_d005 1.0",
  "bbob-biobj-mixint_f065_i15_d010 1.0",
  "bbob-biobj-mixint_f065_i15_d020 1.0",
  "bbob-biobj-mixint_f065_i15_d040 1.0",
  "bbob-biobj-mixint_f065_i15_d080 1.0",
  "bbob-biobj-mixint_f065_i15_d160 1.0",
  "bbob-biobj-mixint_f066_i01_d005 1.0",
  "bbob-biobj-mixint_f066_i01_d010 1.0",
  "bbob-biobj-mixint_f066_i01_d020 1.0",
  "bbob-biobj-mixint_f066_i01_d040 1.0",
  "bbob-biobj-mixint_f066_i01_d080 1.0",
  "bbob-biobj-mixint_f066_i01_d160 1.0",
  "bbob-biobj-mixint_f066_i02_d005 1.0",
  "bbob-biobj-mixint_f066_i02_d010 1.0",
  "bbob-biobj-mixint_f066_i02_d020 1.0",
  "bbob-biobj-mixint_f066_i02_d040 1.0",
  "bbob-biobj-mixint_f066_i02_d080 1.0",
  "bbob-biobj-mixint_f066_i02_d160 1.0",
  "bbob-biobj-mixint_f066_i03_d005 1.0",
  "bbob-biobj-mixint_f066_i03_d010 1.0",
  "bbob-biobj-mixint_f066_i03_d020 1.0",
  "bbob-biobj-mixint_f066_i03_d040 1.0",
  "bbob-biobj-mixint_f066_i03_d080 1.0",
  "bbob-biobj-mixint_f066_i03_d160 1.0",
  "bbob-biobj-mixint_f066_i04_d005 1.0",
  "bbob-biobj-mixint_f066_i04_d010 1.0",
  "bbob-biobj-mixint_f066_i04_d020 1.0",
  "bbob-biobj-mixint_f066_i04_d040 1.0",
  "bbob-biobj-mixint_f066_i04_d080 1.0",
  "bbob-biobj-mixint_f066_i04_d160 1.0",
  "bbob-biobj-mixint_f066_i05_d005 1.0",
  "bbob-biobj-mixint_f066_i05_d010 1.0",
  "bbob-biobj-mixint_f066_i05_d020 1.0",
  "bbob-biobj-mixint_f066_i05_d040 1.0",
  "bbob-biobj-mixint_f066_i05_d080 1.0",
  "bbob-biobj-mixint_f066_i05_d160 1.0",
  "bbob-biobj-mixint_f066_i06_d005 1.0",
  "bbob-biobj-mixint_f066_i06_d010 1.0",
  "bbob-biobj-mixint_f066_i06_d020 1.0",
  "bbob-biobj-mixint_f066_i06_d040 1.0",
  "bbob-biobj-mixint_f066_i06_d080 1.0",
  "bbob-biobj-mixint_f066_i06_d160 1.0",
  "bbob-biobj-mixint_f066_i07_d005 1.0",
  "bbob-biobj-mixint_f066_i07_d010 1.0",
  "bbob-biobj-mixint_f066_i07_d020 1.0",
  "bbob-biobj-mixint_f066_i07_d040 1.0",
  "bbob-biobj-mixint_f066_i07_d080 1.0",
  "bbob-biobj-mixint_f066_i07_d160 1.0",
  "bbob-biobj-mixint_f066_i08_d005 1.0",
  "bbob-biobj-mixint_f066_i08_d010 1.0",
  "bbob-biobj-mixint_f066_i08_d020 1.0",
  "bbob-biobj-mixint_f066_i08_d040 1.0",
  "bbob-biobj-mixint_f066_i08_d080 1.0",
  "bbob-biobj-mixint_f066_i08_d160 1.0",
  "bbob-biobj-mixint_f066_i09_d005 1.0",
  "bbob-biobj-mixint_f066_i09_d010 1.0",
  "bbob-biobj-mixint_f066_i09_d020 1.0",
  "bbob-biobj-mixint_f066_i09_d040 1.0",
  "bbob-biobj-mixint_f066_i09_d080 1.0",
  "bbob-biobj-mixint_f066_i09_d160 1.0",
  "bbob-biobj-mixint_f066_i10_d005 1.0",
  "bbob-biobj-mixint_f066_i10_d010 1.0",
  "bbob-biobj-mixint_f066_i10_d020 1.0",
  "bbob-biobj-mixint_f066_i10_d040 1.0",
  "bbob-biobj-mixint_f066_i10_d080 1.0",
  "bbob-biobj-mixint_f066_i10_d160 1.0",
  "bbob-biobj-mixint_f066_i11_d005 1.0",
  "bbob-biobj-mixint_f066_i11_d010 1.0",
  "bbob-biobj-mixint_f066_i11_d020 1.0",
  "bbob-biobj-mixint_f066_i11_d040 1.0",
  "bbob-biobj-mixint_f066_i11_d080 1.0",
  "bbob-biobj-mixint_f066_i11_d160 1.0",
  "bbob-biobj-mixint_f066_i12_d005 1.0",
  "bbob-biobj-mixint_f066_i12_d010 1.0",
  "bbob-biobj-mixint_f066_i12_d020 1.0",
  "bbob-biobj-mixint_f066_i12_d040 1.0",
  "bbob-biobj-mixint_f066_i12_d080 1.0",
  "bbob-biobj-mixint_f066_i12_d160 1.0",
  "bbob-biobj-mixint_f066_i13_d005 1.0",
  "bbob-biobj-mixint_f066_i13_d010 1.0",
  "bbob-biobj-mixint_f066_i13_d020 1.0",
  "bbob-biobj-mixint_f066_i13_d040 1.0",
  "bbob-biobj-mixint_f066_i13_d080 1.0",
  "bbob-biobj-mixint_f066_i13_d160 1.0",
  "bbob-biobj-mixint_f066_i14_d005 1.0",
  "bbob-biobj-mixint_f066_i14_d010 1.0",
  "bbob-biobj-mixint_f066_i14_d020 1.0",
  "bbob-biobj-mixint_f066_i14_d040 1.0",
  "bbob-biobj-mixint_f066_i14_d080 1.0",
  "bbob-biobj-mixint_f066_i14_d160 1.0",
  "bbob-biobj-mixint_f066_i15_d005 1.0",
  "bbob-biobj-mixint_f066_i15_d010 1.0",
  "bbob-biobj-mixint_f066_i15_d020 1.0",
  "bbob-biobj-mixint_f066_i15_d040 1.0",
  "bbob-biobj-mixint_f066_i15_d080 1.0",
  "bbob-biobj-mixint_f066_i15_d160 1.0",
  "bbob-biobj-mixint_f067_i01_d005 1.0",
  "bbob-biobj-mixint_f067_i01_d010 1.0",
  "bbob-biobj-mixint_f067_i01_d020 1.0",
  "bbob-biobj-mixint_f067_i01_d040 1.0",
  "bbob-biobj-mixint_f067_i01_d080 1.0",
  "bbob-biobj-mixint_f067_i01_d160 1.0",
  "bbob-biobj-mixint_f067_i02_d005 1.0",
  "bbob-biobj-mixint_f067_i02_d010 1.0",
  "bbob-biobj-mixint_f067_i02_d020 1.0",
  "bbob-biobj-mixint_f067_i02_d040 1.0",
  "bbob-biobj-mixint_f067_i02_d080 1.0",
  "bbob-biobj-mixint_f067_i02_d160 1.0",
  "bbob-biobj-mixint_f067_i03_d005 1.0",
  "bbob-biobj-mixint_f067_i03_d010 1.0",
  "bbob-biobj-mixint_f067_i03_d020 1.0",
  "bbob-biobj-mixint_f067_i03_d040 1.0",
  "bbob-biobj-mixint_f067_i03_d080 1.0",
  "bbob-biobj-mixint_f067_i03_d160 1.0",
  "bbob-biobj-mixint_f067_i04_d005 1.0",
  "bbob-biobj-mixint_f067_i04_d010 1.0",
  "bbob-biobj-mixint_f067_i04_d020 1.0",
  "bbob-biobj-mixint_f067_i04_d040 1.0",
  "bbob-biobj-mixint_f067_i04_d080 1.0",
  "bbob-biobj-mixint_f067_i04_d160 1.0",
  "bbob-biobj-mixint_f067_i05_d005 1.0",
  "bbob-biobj-mixint_f067_i05_d010 1.0",
  "bbob-biobj-mixint_f067_i05_d020 1.0",
  "bbob-biobj-mixint_f067_i05_d040 1.0",
  "bbob-biobj-mixint_f067_i05_d080 1.0",
  "bbob-biobj-mixint_f067_i05_d160 1.0",
  "bbob-biobj-mixint_f067_i06_d005 1.0",
  "bbob-biobj-mixint_f067_i06_d010 1.0",
  "bbob-biobj-mixint_f067_i06_d020 1.0",
  "bbob-biobj-mixint_f067_i06_d040 1.0",
  "bbob-biobj-mixint_f067_i06_d080 1.0",
  "bbob-biobj-mixint_f067_i06_d160 1.0",
  "bbob-biobj-mixint_f067_i07_d005 1.0",
  "bbob-biobj-mixint_f067_i07_d010 1.0",
  "bbob-biobj-mixint_f067_i07_d020 1.0",
  "bbob-biobj-mixint_f067_i07_d040 1.0",
  "bbob-biobj-mixint_f067_i07_d080 1.0",
  "bbob-biobj-mixint_f067_i07_d160 1.0",
  "bbob-biobj-mixint_f067_i08_d005 1.0",
  "bbob-biobj-mixint_f067_i08_d010 1.0",
  "bbob-biobj-mixint_f067_i08_d020 1.0",
  "bbob-biobj-mixint_f067_i08_d040 1.0",
  "bbob-biobj-mixint_f067_i08_d080 1.0",
  "bbob-biobj-mixint_f067_i08_d160 1.0",
  "bbob-biobj-mixint_f067_i09_d005 1.0",
  "bbob-biobj-mixint_f067_i09_d010 1.0",
  "bbob-biobj-mixint_f067_i09_d020 1.0",
  "bbob-biobj-mixint_f067_i09_d040 1.0",
  "bbob-biobj-mixint_f067_i09_d080 1.0",
  "bbob-biobj-mixint_f067_i09_d160 1.0",
  "bbob-biobj-mixint_f067_i10_d005 1.0",
  "bbob-biobj-mixint_f067_i10_d010 1.0",
  "bbob-biobj-mixint_f067_i10_d020 1.0",
  "bbob-biobj-mixint_f067_i10_d040 1.0",
  "bbob-biobj-mixint_f067_i10_d080 1.0",
  "bbob-biobj-mixint_f067_i10_d160 1.0",
  "bbob-biobj-mixint_f067_i11_d005 1.0",
  "bbob-biobj-mixint_f067_i11_d010 1.0",
  "bbob-biobj-mixint_f067_i11_d020 1.0",
  "bbob-biobj-mixint_f067_i11_d040 1.0",
  "bbob-biobj-mixint_f067_i11_d080 1.0",
  "bbob-biobj-mixint_f067_i11_d160 1.0",
  "bbob-biobj-mixint_f067_i12_d005 1.0",
  "bbob-biobj-mixint_f067_i12_d010 1.0",
  "bbob-biobj-mixint_f067_i12_d020 1.0",
  "bbob-biobj-mixint_f067_i12_d040 1.0",
  "bbob-biobj-mixint_f067_i12_d080 1.0",
  "bbob-biobj-mixint_f067_i12_d160 1.0",
  "bbob-biobj-mixint_f067_i13_d005 1.0",
  "bbob-biobj-mixint_f067_i13_d010 1.0",
  "bbob-biobj-mixint_f067_i13_d020 1.0",
  "bbob-biobj-mixint_f067_i13_d040 1.0",
  "bbob-biobj-mixint_f067_i13_d080 1.0",
  "bbob-biobj-mixint_f067_i13_d160 1.0",
  "bbob-biobj-mixint_f067_i14_d005 1.0",
  "bbob-biobj-mixint_f067_i14_d010 1.0",
  "bbob-biobj-mixint_f067_i14_d020 1.0",
  "bbob-biobj-mixint_f067_i14_d040 1.0",
  "bbob-biobj-mixint_f067_i14_d080 1.0",
  "bbob-biobj-mixint_f067_i14_d160 1.0",
  "bbob-biobj-mixint_f067_i15_d005 1.0",
  "bbob-biobj-mixint_f067_i15_d010 1.0",
  "bbob-biobj-mixint_f067_i15_d020 1.0",
  "bbob-biobj-mixint_f067_i15_d040 1.0",
  "bbob-biobj-mixint_f067_i15_d080 1.0",
  "bbob-biobj-mixint_f067_i15_d160 1.0",
  "bbob-biobj-mixint_f068_i01_d005 1.0",
  "bbob-biobj-mixint_f068_i01_d010 1.0",
  "bbob-biobj-mixint_f068_i01_d020 1.0",
  "bbob-biobj-mixint_f068_i01_d040 1.0",
  "bbob-biobj-mixint_f068_i01_d080 1.0",
  "bbob-biobj-mixint_f068_i01_d160 1.0",
  "bbob-biobj-mixint_f068_i02_d005 1.0",
  "bbob-biobj-mixint_f068_i02_d010 1.0",
  "bbob-biobj-mixint_f068_i02_d020 1.0",
  "bbob-biobj-mixint_f068_i02_d040 1.0",
  "bbob-biobj-mixint_f068_i02_d080 1.0",
  "bbob-biobj-mixint_f068_i02_d160 1.0",
  "bbob-biobj-mixint_f068_i03_d005 1.0",
  "bbob-biobj-mixint_f068_i03_d010 1.0",
  "bbob-biobj-mixint_f068_i03_d020 1.0",
  "bbob-biobj-mixint_f068_i03_d040 1.0",
  "bbob-biobj-mixint_f068_i03_d080 1.0",
  "bbob-biobj-mixint_f068_i03_d160 1.0",
  "bbob-biobj-mixint_f068_i04_d005 1.0",
  "bbob-biobj-mixint_f068_i04_d010 1.0",
  "bbob-biobj-mixint_f068_i04_d020 1.0",
  "bbob-biobj-mixint_f068_i04_d040 1.0",
  "bbob-biobj-mixint_f068_i04_d080 1.0",
  "bbob-biobj-mixint_f068_i04_d160 1.0",
  "bbob-biobj-mixint_f068_i05_d005 1.0",
  "bbob-biobj-mixint_f068_i05_d010 1.0",
  "bbob-biobj-mixint_f068_i05_d020 1.0",
  "bbob-biobj-mixint_f068_i05_d040 1.0",
  "bbob-biobj-mixint_f068_i05_d080 1.0",
  "bbob-biobj-mixint_f068_i05_d160 1.0",
  "bbob-biobj-mixint_f068_i06_d005 1.0",
  "bbob-biobj-mixint_f068_i06_d010 1.0",
  "bbob-biobj-mixint_f068_i06_d020 1.0",
  "bbob-biobj-mixint_f068_i06_d040 1.0",
  "bbob-biobj-mixint_f068_i06_d080 1.0",
  "bbob-biobj-mixint_f068_i06_d160 1.0",
  "bbob-biobj-mixint_f068_i07_d005 1.0",
  "bbob-biobj-mixint_f068_i07_d010 1.0",
  "bbob-biobj-mixint_f068_i07_d020 1.0",
  "bbob-biobj-mixint_f068_i07_d040 1.0",
  "bbob-biobj-mixint_f068_i07_d080 1.0",
  "bbob-biobj-mixint_f068_i07_d160 1.0",
  "bbob-biobj-mixint_f068_i08_d005 1.0",
  "bbob-biobj-mixint_f068_i08_d010 1.0",
  "bbob-biobj-mixint_f068_i08_d020 1.0",
  "bbob-biobj-mixint_f068_i08_d040 1.0",
  "bbob-biobj-mixint_f068_i08_d080 1.0",
  "bbob-biobj-mixint_f068_i08_d160 1.0",
  "bbob-biobj-mixint_f068_i09_d005 1.0",
  "bbob-biobj-mixint_f068_i09_d010 1.0",
  "bbob-biobj-mixint_f068_i09_d020 1.0",
  "bbob-biobj-mixint_f068_i09_d040 1.0",
  "bbob-biobj-mixint_f068_i09_d080 1.0",
  "bbob-biobj-mixint_f068_i09_d160 1.0",
  "bbob-biobj-mixint_f068_i10_d005 1.0",
  "bbob-biobj-mixint_f068_i10_d010 1.0",
  "bbob-biobj-mixint_f068_i10_d020 1.0",
  "bbob-biobj-mixint_f068_i10_d040 1.0",
  "bbob-biobj-mixint_f068_i10_d080 1.0",
  "bbob-biobj-mixint_f068_i10_d160 1.0",
  "bbob-biobj-mixint_f068_i11_d005 1.0",
  "bbob-biobj-mixint_f068_i11_d010 1.0",
  "bbob-biobj-mixint_f068_i11_d020 1.0",
  "bbob-biobj-mixint_f068_i11_d040 1.0",
  "bbob-biobj-mixint_f068_i11_d080 1.0",
  "bbob-biobj-mixint_f068_i11_d160 1.0",
  "bbob-biobj-mixint_f068_i12_d005 1.0",
  "bbob-biobj-mixint_f068_i12_d010 1.0",
  "bbob-biobj-mixint_f068_i12_d020 1.0",
  "bbob-biobj-mixint_f068_i12_d040 1.0",
  "bbob-biobj-mixint_f068_i12_d080 1.0",
  "bbob-biobj-mixint_f068_i12_d160 1.0",
  "bbob-biobj-mixint_f068_i13_d005 1.0",
  "bbob-biobj-mixint_f068_i13_d010 1.0",
  "bbob-biobj-mixint_f068_i13_d020 1.0",
  "bbob-biobj-mixint_f068_i13_d040 1.0",
  "bbob-biobj-mixint_f068_i13_d080 1.0",
  "bbob-biobj-mixint_f068_i13_d160 1.0",
  "bbob-biobj-mixint_f068_i14_d005 1.0",
  "bbob-biobj-mixint_f068_i14_d010 1.0",
  "bbob-biobj-mixint_f068_i14_d020 1.0",
  "bbob-biobj-mixint_f068_i14_d040 1.0",
  "bbob-biobj-mixint_f068_i14_d080 1.0",
  "bbob-biobj-mixint_f068_i14_d160 1.0",
  "bbob-biobj-mixint_f068_i15_d005 1.0",
  "bbob-biobj-mixint_f068_i15_d010 1.0",
  "bbob-biobj-mixint_f068_i15_d020 1.0",
  "bbob-biobj-mixint_f068_i15_d040 1.0",
  "bbob-biobj-mixint_f068_i15_d080 1.0",
  "bbob-biobj-mixint_f068_i15_d160 1.0",
  "bbob-biobj-mixint_f069_i01_d005 1.0",
  "bbob-biobj-mixint_f069_i01_d010 1.0",
  "bbob-biobj-mixint_f069_i01_d020 1.0",
  "bbob-biobj-mixint_f069_i01_d040 1.0",
  "bbob-biobj-mixint_f069_i01_d080 1.0",
  "bbob-biobj-mixint_f069_i01_d160 1.0",
  "bbob-biobj-mixint_f069_i02_d005 1.0",
  "bbob-biobj-mixint_f069_i02_d010 1.0",
  "bbob-biobj-mixint_f069_i02_d020 1.0",
  "bbob-biobj-mixint_f069_i02_d040 1.0",
  "bbob-biobj-mixint_f069_i02_d080 1.0",
  "bbob-biobj-mixint_f069_i02_d160 1.0",
  "bbob-biobj-mixint_f069_i03_d005 1.0",
  "bbob-biobj-mixint_f069_i03_d010 1.0",
  "bbob-biobj-mixint_f069_i03_d020 1.0",
  "bbob-biobj-mixint_f069_i03_d040 1.0",
  "bbob-biobj-mixint_f069_i03_d080 1.0",
  "bbob-biobj-mixint_f069_i03_d160 1.0",
  "bbob-biobj-mixint_f069_i04_d005 1.0",
  "bbob-biobj-mixint_f069_i04_d010 1.0",
  "bbob-biobj-mixint_f069_i04_d020 1.0",
  "bbob-biobj-mixint_f069_i04_d040 1.0",
  "bbob-biobj-mixint_f069_i04_d080 1.0",
  "bbob-biobj-mixint_f069_i04_d160 1.0",
  "bbob-biobj-mixint_f069_i05_d005 1.0",
  "bbob-biobj-mixint_f069_i05_d010 1.0",
  "bbob-biobj-mixint_f069_i05_d020 1.0",
  "bbob-biobj-mixint_f069_i05_d040 1.0",
  "bbob-biobj-mixint_f069_i05_d080 1.0",
  "bbob-biobj-mixint_f069_i05_d160 1.0",
  "bbob-biobj-mixint_f069_i06_d005 1.0",
  "bbob-biobj-mixint_f069_i06_d010 1.0",
  "bbob-biobj-mixint_f069_i06_d020 1.0",
  "bbob-biobj-mixint_f069_i06_d040 1.0",
  "bbob-biobj-mixint_f069_i06_d080 1.0",
  "bbob-biobj-mixint_f069_i06_d160 1.0",
  "bbob-biobj-mixint_f069_i07_d005 1.0",
  "bbob-biobj-mixint_f069_i07_d010 1.0",
  "bbob-biobj-mixint_f069_i07_d020 1.0",
  "bbob-biobj-mixint_f069_i07_d040 1.0",
  "bbob-biobj-mixint_f069_i07_d080 1.0",
  "bbob-biobj-mixint_f069_i07_d160 1.0",
  "bbob-biobj-mixint_f069_i08_d005 1.0",
  "bbob-biobj-mixint_f069_i08_d010 1.0",
  "bbob-biobj-mixint_f069_i08_d020 1.0",
  "bbob-biobj-mixint_f069_i08_d040 1.0",
  "bbob-biobj-mixint_f069_i08_d080 1.0",
  "bbob-biobj-mixint_f069_i08_d160 1.0",
  "bbob-biobj-mixint_f069_i09_d005 1.0",
  "bbob-biobj-mixint_f069_i09_d010 1.0",
  "bbob-biobj-mixint_f069_i09_d020 1.0",
  "bbob-biobj-mixint_f069_i09_d040 1.0",
  "bbob-biobj-mixint_f069_i09_d080 1.0",
  "bbob-biobj-mixint_f069_i09_d160 1.0",
  "bbob-biobj-mixint_f069_i10_d005 1.0",
  "bbob-biobj-mixint_f069_i10_d010 1.0",
  "bbob-biobj-mixint_f069_i10_d020 1.0",
  "bbob-biobj-mixint_f069_i10_d040 1.0",
  "bbob-biobj-mixint_f069_i10_d080 1.0",
  "bbob-biobj-mixint_f069_i10_d160 1.0",
  "bbob-biobj-mixint_f069_i11_d005 1.0",
  "bbob-biobj-mixint_f069_i11_d010 1.0",
  "bbob-biobj-mixint_f069_i11_d020 1.0",
  "bbob-biobj-mixint_f069_i11_d040 1.0",
  "bbob-biobj-mixint_f069_i11_d080 1.0",
  "bbob-biobj-mixint_f069_i11_d160 1.0",
  "bbob-biobj-mixint_f069_i12_d005 1.0",
  "bbob-biobj-mixint_f069_i12_d010 1.0",
  "bbob-biobj-mixint_f069_i12_d020 1.0",
  "bbob-biobj-mixint_f069_i12_d040 1.0",
  "bbob-biobj-mixint_f069_i12_d080 1.0",
  "bbob-biobj-mixint_f069_i12_d160 1.0",
  "bbob-biobj-mixint_f069_i13_d005 1.0",
  "bbob-biobj-mixint_f069_i13_d010 1.0",
  "bbob-biobj-mixint_f069_i13_d020 1.0",
  "bbob-biobj-mixint_f069_i13_d040 1.0",
  "bbob-biobj-mixint_f069_i13_d080 1.0",
  "bbob-biobj-mixint_f069_i13_d160 1.0",
  "bbob-biobj-mixint_f069_i14_d005 1.0",
  "bbob-biobj-mixint_f069_i14_d010 1.0",
  "bbob-biobj-mixint_f069_i14_d020 1.0",
  "bbob-biobj-mixint_f069_i14_d040 1.0",
  "bbob-biobj-mixint_f069_i14_d080 1.0",
  "bbob-biobj-mixint_f069_i14_d160 1.0",
  "bbob-biobj-mixint_f069_i15_d005 1.0",
  "bbob-biobj-mixint_f069_i15_d010 1.0",
  "bbob-biobj-mixint_f069_i15_d020 1.0",
  "bbob-biobj-mixint_f069_i15_d040 1.0",
  "bbob-biobj-mixint_f069_i15_d080 1.0",
  "bbob-biobj-mixint_f069_i15_d160 1.0",
  "bbob-biobj-mixint_f070_i01_d005 1.0",
  "bbob-biobj-mixint_f070_i01_d010 1.0",
  "bbob-biobj-mixint_f070_i01_d020 1.0",
  "bbob-biobj-mixint_f070_i01_d040 1.0",
  "bbob-biobj-mixint_f070_i01_d080 1.0",
  "bbob-biobj-mixint_f070_i01_d160 1.0",
  "bbob-biobj-mixint_f070_i02_d005 1.0",
  "bbob-biobj-mixint_f070_i02_d010 1.0",
  "bbob-biobj-mixint_f070_i02_d020 1.0",
  "bbob-biobj-mixint_f070_i02_d040 1.0",
  "bbob-biobj-mixint_f070_i02_d080 1.0",
  "bbob-biobj-mixint_f070_i02_d160 1.0",
  "bbob-biobj-mixint_f070_i03_d005 1.0",
  "bbob-biobj-mixint_f070_i03_d010 1.0",
  "bbob-biobj-mixint_f070_i03_d020 1.0",
  "bbob-biobj-mixint_f070_i03_d040 1.0",
  "bbob-biobj-mixint_f070_i03_d080 1.0",
  "bbob-biobj-mixint_f070_i03_d160 1.0",
  "bbob-biobj-mixint_f070_i04_d005 1.0",
  "bbob-biobj-mixint_f070_i04_d010 1.0",
  "bbob-biobj-mixint_f070_i04_d020 1.0",
  "bbob-biobj-mixint_f070_i04_d040 1.0",
  "bbob-biobj-mixint_f070_i04_d080 1.0",
  "bbob-biobj-mixint_f070_i04_d160 1.0",
  "bbob-biobj-mixint_f070_i05_d005 1.0",
  "bbob-biobj-mixint_f070_i05_d010 1.0",
  "bbob-biobj-mixint_f070_i05_d020 1.0",
  "bbob-biobj-mixint_f070_i05_d040 1.0",
  "bbob-biobj-mixint_f070_i05_d080 1.0",
  "bbob-biobj-mixint_f070_i05_d160 1.0",
  "bbob-biobj-mixint_f070_i06_d005 1.0",
  "bbob-biobj-mixint_f070_i06_d010 1.0",
  "bbob-biobj-mixint_f070_i06_d020 1.0",
  "bbob-biobj-mixint_f070_i06_d040 1.0",
  "bbob-biobj-mixint_f070_i06_d080 1.0",
  "bbob-biobj-mixint_f070_i06_d160 1.0",
  "bbob-biobj-mixint_f070_i07_d005 1.0",
  "bbob-biobj-mixint_f070_i07_d010 1.0",
  "bbob-biobj-mixint_f070_i07_d020 1.0",
  "bbob-biobj-mixint_f070_i07_d040 1.0",
  "bbob-biobj-mixint_f070_i07_d080 1.0",
  "bbob-biobj-mixint_f070_i07_d160 1.0",
  "bbob-biobj-mixint_f070_i08_d005 1.0",
  "bbob-biobj-mixint_f070_i08_d010 1.0",
  "bbob-biobj-mixint_f070_i08_d020 1.0",
  "bbob-biobj-mixint_f070_i08_d040 1.0",
  "bbob-biobj-mixint_f070_i08_d080 1.0",
  "bbob-biobj-mixint_f070_i08_d160 1.0",
  "bbob-biobj-mixint_f070_i09_d005 1.0",
  "bbob-biobj-mixint_f070_i09_d010 1.0",
  "bbob-biobj-mixint_f070_i09_d020 1.0",
  "bbob-biobj-mixint_f070_i09_d040 1.0",
  "bbob-biobj-mixint_f070_i09_d080 1.0",
  "bbob-biobj-mixint_f070_i09_d160 1.0",
  "bbob-biobj-mixint_f070_i10_d005 1.0",
  "bbob-biobj-mixint_f070_i10_d010 1.0",
  "bbob-biobj-mixint_f070_i10_d020 1.0",
  "bbob-biobj-mixint_f070_i10_d040 1.0",
  "bbob-biobj-mixint_f070_i10_d080 1.0",
  "bbob-biobj-mixint_f070_i10_d160 1.0",
  "bbob-biobj-mixint_f070_i11_d005 1.0",
  "bbob-biobj-mixint_f070_i11_d010 1.0",
  "bbob-biobj-mixint_f070_i11_d020 1.0",
  "bbob-biobj-mixint_f070_i11_d040 1.0",
  "bbob-biobj-mixint_f070_i11_d080 1.0",
  "bbob-biobj-mixint_f070_i11_d160 1.0",
  "bbob-biobj-mixint_f070_i12_d005 1.0",
  "bbob-biobj-mixint_f070_i12_d010 1.0",
  "bbob-biobj-mixint_f070_i12_d020 1.0",
  "bbob-biobj-mixint_f070_i12_d040 1.0",
  "bbob-biobj-mixint_f070_i12_d080 1.0",
  "bbob-biobj-mixint_f070_i12_d160 1.0",
  "bbob-biobj-mixint_f070_i13_d005 1.0",
  "bbob-biobj-mixint_f070_i13_d010 1.0",
  "bbob-biobj-mixint_f070_i13_d020 1.0",
  "bbob-biobj-mixint_f070_i13_d040 1.0",
  "bbob-biobj-mixint_f070_i13_d080 1.0",
  "bbob-biobj-mixint_f070_i13_d160 1.0",
  "bbob-biobj-mixint_f070_i14_d005 1.0",
  "bbob-biobj-mixint_f070_i14_d010 1.0",
  "bbob-biobj-mixint_f070_i14_d020 1.0",
  "bbob-biobj-mixint_f070_i14_d040 1.0",
  "bbob-biobj-mixint_f070_i14_d080 1.0",
  "bbob-biobj-mixint_f070_i14_d160 1.0",
  "bbob-biobj-mixint_f070_i15_d005 1.0",
  "bbob-biobj-mixint_f070_i15_d010 1.0",
  "bbob-biobj-mixint_f070_i15_d020 1.0",
  "bbob-biobj-mixint_f070_i15_d040 1.0",
  "bbob-biobj-mixint_f070_i15_d080 1.0",
  "bbob-biobj-mixint_f070_i15_d160 1.0",
  "bbob-biobj-mixint_f071_i01_d005 1.0",
  "bbob-biobj-mixint_f071_i01_d010 1.0",
  "bbob-biobj-mixint_f071_i01_d020 1.0",
  "bbob-biobj-mixint_f071_i01_d040 1.0",
  "bbob-biobj-mixint_f071_i01_d080 1.0",
  "bbob-biobj-mixint_f071_i01_d160 1.0",
  "bbob-biobj-mixint_f071_i02_d005 1.0",
  "bbob-biobj-mixint_f071_i02_d010 1.0",
  "bbob-biobj-mixint_f071_i02_d020 1.0",
  "bbob-biobj-mixint_f071_i02_d040 1.0",
  "bbob-biobj-mixint_f071_i02_d080 1.0",
  "bbob-biobj-mixint_f071_i02_d160 1.0",
  "bbob-biobj-mixint_f071_i03_d005 1.0",
  "bbob-biobj-mixint_f071_i03_d010 1.0",
  "bbob-biobj-mixint_f071_i03_d020 1.0",
  "bbob-biobj-mixint_f071_i03_d040 1.0",
  "bbob-biobj-mixint_f071_i03_d080 1.0",
  "bbob-biobj-mixint_f071_i03_d160 1.0",
  "bbob-biobj-mixint_f071_i04_d005 1.0",
  "bbob-biobj-mixint_f071_i04_d010 1.0",
  "bbob-biobj-mixint_f071_i04_d020 1.0",
  "bbob-biobj-mixint_f071_i04_d040 1.0",
  "bbob-biobj-mixint_f071_i04_d080 1.0",
  "bbob-biobj-mixint_f071_i04_d160 1.0",
  "bbob-biobj-mixint_f071_i05_d005 1.0",
  "bbob-biobj-mixint_f071_i05_d010 1.0",
  "bbob-biobj-mixint_f071_i05_d020 1.0",
  "bbob-biobj-mixint_f071_i05_d040 1.0",
  "bbob-biobj-mixint_f071_i05_d080 1.0",
  "bbob-biobj-mixint_f071_i05_d160 1.0",
  "bbob-biobj-mixint_f071_i06_d005 1.0",
  "bbob-biobj-mixint_f071_i06_d010 1.0",
  "bbob-biobj-mixint_f071_i06_d020 1.0",
  "bbob-biobj-mixint_f071_i06_d040 1.0",
  "bbob-biobj-mixint_f071_i06_d080 1.0",
  "bbob-biobj-mixint_f071_i06_d160 1.0",
  "bbob-biobj-mixint_f071_i07_d005 1.0",
  "bbob-biobj-mixint_f071_i07_d010 1.0",
  "bbob-biobj-mixint_f071_i07_d020 1.0",
  "bbob-biobj-mixint_f071_i07_d040 1.0",
  "bbob-biobj-mixint_f071_i07_d080 1.0",
  "bbob-biobj-mixint_f071_i07_d160 1.0",
  "bbob-biobj-mixint_f071_i08_d005 1.0",
  "bbob-biobj-mixint_f071_i08_d010 1.0",
  "bbob-biobj-mixint_f071_i08_d020 1.0",
  "bbob-biobj-mixint_f071_i08_d040 1.0",
  "bbob-biobj-mixint_f071_i08_d080 1.0",
  "bbob-biobj-mixint_f071_i08_d160 1.0",
  "bbob-biobj-mixint_f071_i09_d005 1.0",
  "bbob-biobj-mixint_f071_i09_d010 1.0",
  "bbob-biobj-mixint_f071_i09_d020 1.0",
  "bbob-biobj-mixint_f071_i09_d040 1.0",
  "bbob-biobj-mixint_f071_i09_d080 1.0",
  "bbob-biobj-mixint_f071_i09_d160 1.0",
  "bbob-biobj-mixint_f071_i10_d005 1.0",
  "bbob-biobj-mixint_f071_i10_d010 1.0",
  "bbob-biobj-mixint_f071_i10_d020 1.0",
  "bbob-biobj-mixint_f071_i10_d040 1.0",
  "bbob-biobj-mixint_f071_i10_d080 1.0",
  "bbob-biobj-mixint_f071_i10_d160 1.0",
  "bbob-biobj-mixint_f071_i11_d005 1.0",
  "bbob-biobj-mixint_f071_i11_d010 1.0",
  "bbob-biobj-mixint_f071_i11_d020 1.0",
  "bbob-biobj-mixint_f071_i11_d040 1.0",
  "bbob-biobj-mixint_f071_i11_d080 1.0",
  "bbob-biobj-mixint_f071_i11_d160 1.0",
  "bbob-biobj-mixint_f071_i12_d005 1.0",
  "bbob-biobj-mixint_f071_i12_d010 1.0",
  "bbob-biobj-mixint_f071_i12_d020 1.0",
  "bbob-biobj-mixint_f071_i12_d040 1.0",
  "bbob-biobj-mixint_f071_i12_d080 1.0",
  "bbob-biobj-mixint_f071_i12_d160 1.0",
  "bbob-biobj-mixint_f071_i13_d005 1.0",
  "bbob-biobj-mixint_f071_i13_d010 1.0",
  "bbob-biobj-mixint_f071_i13_d020 1.0",
  "bbob-biobj-mixint_f071_i13_d040 1.0",
  "bbob-biobj-mixint_f071_i13_d080 1.0",
  "bbob-biobj-mixint_f071_i13_d160 1.0",
  "bbob-biobj-mixint_f071_i14_d005 1.0",
  "bbob-biobj-mixint_f071_i14_d010 1.0",
  "bbob-biobj-mixint_f071_i14_d020 1.0",
  "bbob-biobj-mixint_f071_i14_d040 1.0",
  "bbob-biobj-mixint_f071_i14_d080 1.0",
  "bbob-biobj-mixint_f071_i14_d160 1.0",
  "bbob-biobj-mixint_f071_i15_d005 1.0",
  "bbob-biobj-mixint_f071_i15_d010 1.0",
  "bbob-biobj-mixint_f071_i15_d020 1.0",
  "bbob-biobj-mixint_f071_i15_d040 1.0",
  "bbob-biobj-mixint_f071_i15_d080 1.0",
  "bbob-biobj-mixint_f071_i15_d160 1.0",
  "bbob-biobj-mixint_f072_i01_d005 1.0",
  "bbob-biobj-mixint_f072_i01_d010 1.0",
  "bbob-biobj-mixint_f072_i01_d020 1.0",
  "bbob-biobj-mixint_f072_i01_d040 1.0",
  "bbob-biobj-mixint_f072_i01_d080 1.0",
  "bbob-biobj-mixint_f072_i01_d160 1.0",
  "bbob-biobj-mixint_f072_i02_d005 1.0",
  "bbob-biobj-mixint_f072_i02_d010 1.0",
  "bbob-biobj-mixint_f072_i02_d020 1.0",
  "bbob-biobj-mixint_f072_i02_d040 1.0",
  "bbob-biobj-mixint_f072_i02_d080 1.0",
  "bbob-biobj-mixint_f072_i02_d160 1.0",
  "bbob-biobj-mixint_f072_i03_d005 1.0",
  "bbob-biobj-mixint_f072_i03_d010 1.0",
  "bbob-biobj-mixint_f072_i03_d020 1.0",
  "bbob-biobj-mixint_f072_i03_d040 1.0",
  "bbob-biobj-mixint_f072_i03_d080 1.0",
  "bbob-biobj-mixint_f072_i03_d160 1.0",
  "bbob-biobj-mixint_f072_i04_d005 1.0",
  "bbob-biobj-mixint_f072_i04_d010 1.0",
  "bbob-biobj-mixint_f072_i04_d020 1.0",
  "bbob-biobj-mixint_f072_i04_d040 1.0",
  "bbob-biobj-mixint_f072_i04_d080 1.0",
  "bbob-biobj-mixint_f072_i04_d160 1.0",
  "bbob-biobj-mixint_f072_i05_d005 1.0",
  "bbob-biobj-mixint_f072_i05_d010 1.0",
  "bbob-biobj-mixint_f072_i05_d020 1.0",
  "bbob-biobj-mixint_f072_i05_d040 1.0",
  "bbob-biobj-mixint_f072_i05_d080 1.0",
  "bbob-biobj-mixint_f072_i05_d160 1.0",
  "bbob-biobj-mixint_f072_i06_d005 1.0",
  "bbob-biobj-mixint_f072_i06_d010 1.0",
  "bbob-biobj-mixint_f072_i06_d020 1.0",
  "bbob-biobj-mixint_f072_i06_d040 1.0",
  "bbob-biobj-mixint_f072_i06_d080 1.0",
  "bbob-biobj-mixint_f072_i06_d160 1.0",
  "bbob-biobj-mixint_f072_i07_d005 1.0",
  "bbob-biobj-mixint_f072_i07_d010 1.0",
  "bbob-biobj-mixint_f072_i07_d020 1.0",
  "bbob-biobj-mixint_f072_i07_d040 1.0",
  "bbob-biobj-mixint_f072_i07_d080 1.0",
  "bbob-biobj-mixint_f072_i07_d160 1.0",
  "bbob-biobj-mixint_f072_i08_d005 1.0",
  "bbob-biobj-mixint_f072_i08_d010 1.0",
  "bbob-biobj-mixint_f072_i08_d020 1.0",
  "bbob-biobj-mixint_f072_i08_d040 1.0",
  "bbob-biobj-mixint_f072_i08_d080 1.0",
  "bbob-biobj-mixint_f072_i08_d160 1.0",
  "bbob-biobj-mixint_f072_i09_d005 1.0",
  "bbob-biobj-mixint_f072_i09_d010 1.0",
  "bbob-biobj-mixint_f072_i09_d020 1.0",
  "bbob-biobj-mixint_f072_i09_d040 1.0",
  "bbob-biobj-mixint_f072_i09_d080 1.0",
  "bbob-biobj-mixint_f072_i09_d160 1.0",
  "bbob-biobj-mixint_f072_i10_d005 1.0",
  "bbob-biobj-mixint_f072_i10_d010 1.0",
  "bbob-biobj-mixint_f072_i10_d020 1.0",
  "bbob-biobj-mixint_f072_i10_d040 1.0",
  "bbob-biobj-mixint_f072_i10_d080 1.0",
  "bbob-biobj-mixint_f072_i10_d160 1.0",
  "bbob-biobj-mixint_f072_i11_d005 1.0",
  "bbob-biobj-mixint_f072_i11_d010 1.0",
  "bbob-biobj-mixint_f072_i11_d020 1.0",
  "bbob-biobj-mixint_f072_i11_d040 1.0",
  "bbob-biobj-mixint_f072_i11_d080 1.0",
  "bbob-biobj-mixint_f072_i11_d160 1.0",
  "bbob-biobj-mixint_f072_i12_d005 1.0",
  "bbob-biobj-mixint_f072_i12_d010 1.0",
  "bbob-biobj-mixint_f072_i12_d020 1.0",
  "bbob-biobj-mixint_f072_i12_d040 1.0",
  "bbob-biobj-mixint_f072_i12_d080 1.0",
  "bbob-biobj-mixint_f072_i12_d160 1.0",
  "bbob-biobj-mixint_f072_i13_d005 1.0",
  "bbob-biobj-mixint_f072_i13_d010 1.0",
  "bbob-biobj-mixint_f072_i13_d020 1.0",
  "bbob-biobj-mixint_f072_i13_d040 1.0",
  "bbob-biobj-mixint_f072_i13_d080 1.0",
  "bbob-biobj-mixint_f072_i13_d160 1.0",
  "bbob-biobj-mixint_f072_i14_d005 1.0",
  "bbob-biobj-mixint_f072_i14_d010 1.0",
  "bbob-biobj-mixint_f072_i14_d020 1.0",
  "bbob-biobj-mixint_f072_i14_d040 1.0",
  "bbob-biobj-mixint_f072_i14_d080 1.0",
  "bbob-biobj-mixint_f072_i14_d160 1.0",
  "bbob-biobj-mixint_f072_i15_d005 1.0",
  "bbob-biobj-mixint_f072_i15_d010 1.0",
  "bbob-biobj-mixint_f072_i15_d020 1.0",
  "bbob-biobj-mixint_f072_i15_d040 1.0",
  "bbob-biobj-mixint_f072_i15_d080 1.0",
  "bbob-biobj-mixint_f072_i15_d160 1.0",
  "bbob-biobj-mixint_f073_i01_d005 1.0",
  "bbob-biobj-mixint_f073_i01_d010 1.0",
  "bbob-biobj-mixint_f073_i01_d020 1.0",
  "bbob-biobj-mixint_f073_i01_d040 1.0",
  "bbob-biobj-mixint_f073_i01_d080 1.0",
  "bbob-biobj-mixint_f073_i01_d160 1.0",
  "bbob-biobj-mixint_f073_i02_d005 1.0",
  "bbob-biobj-mixint_f073_i02_d010 1.0",
  "bbob-biobj-mixint_f073_i02_d020 1.0",
  "bbob-biobj-mixint_f073_i02_d040 1.0",
  "bbob-biobj-mixint_f073_i02_d080 1.0",
  "bbob-biobj-mixint_f073_i02_d160 1.0",
  "bbob-biobj-mixint_f073_i03_d005 1.0",
  "bbob-biobj-mixint_f073_i03_d010 1.0",
  "bbob-biobj-mixint_f073_i03_d020 1.0",
  "bbob-biobj-mixint_f073_i03_d040 1.0",
  "bbob-biobj-mixint_f073_i03_d080 1.0",
  "bbob-biobj-mixint_f073_i03_d160 1.0",
  "bbob-biobj-mixint_f073_i04_d005 1.0",
  "bbob-biobj-mixint_f073_i04_d010 1.0",
  "bbob-biobj-mixint_f073_i04_d020 1.0",
  "bbob-biobj-mixint_f073_i04_d040 1.0",
  "bbob-biobj-mixint_f073_i04_d080 1.0",
  "bbob-biobj-mixint_f073_i04_d160 1.0",
  "bbob-biobj-mixint_f073_i05_d005 1.0",
  "bbob-biobj-mixint_f073_i05_d010 1.0",
  "bbob-biobj-mixint_f073_i05_d020 1.0",
  "bbob-biobj-mixint_f073_i05_d040 1.0",
  "bbob-biobj-mixint_f073_i05_d080 1.0",
  "bbob-biobj-mixint_f073_i05_d160 1.0",
  "bbob-biobj-mixint_f073_i06_d005 1.0",
  "bbob-biobj-mixint_f073_i06_d010 1.0",
  "bbob-biobj-mixint_f073_i06_d020 1.0",
  "bbob-biobj-mixint_f073_i06_d040 1.0",
  "bbob-biobj-mixint_f073_i06_d080 1.0",
  "bbob-biobj-mixint_f073_i06_d160 1.0",
  "bbob-biobj-mixint_f073_i07_d005 1.0",
  "bbob-biobj-mixint_f073_i07_d010 1.0",
  "bbob-biobj-mixint_f073_i07_d020 1.0",
  "bbob-biobj-mixint_f073_i07_d040 1.0",
  "bbob-biobj-mixint_f073_i07_d080 1.0",
  "bbob-biobj-mixint_f073_i07_d160 1.0",
  "bbob-biobj-mixint_f073_i08_d005 1.0",
  "bbob-biobj-mixint_f073_i08_d010 1.0",
  "bbob-biobj-mixint_f073_i08_d020 1.0",
  "bbob-biobj-mixint_f073_i08_d040 1.0",
  "bbob-biobj-mixint_f073_i08_d080 1.0",
  "bbob-biobj-mixint_f073_i08_d160 1.0",
  "bbob-biobj-mixint_f073_i09_d005 1.0",
  "bbob-biobj-mixint_f073_i09_d010 1.0",
  "bbob-biobj-mixint_f073_i09_d020 1.0",
  "bbob-biobj-mixint_f073_i09_d040 1.0",
  "bbob-biobj-mixint_f073_i09_d080 1.0",
  "bbob-biobj-mixint_f073_i09_d160 1.0",
  "bbob-biobj-mixint_f073_i10_d005 1.0",
  "bbob-biobj-mixint_f073_i10_d010 1.0",
  "bbob-biobj-mixint_f073_i10_d020 1.0",
  "bbob-biobj-mixint_f073_i10_d040 1.0",
  "bbob-biobj-mixint_f073_i10_d080 1.0",
  "bbob-biobj-mixint_f073_i10_d160 1.0",
  "bbob-biobj-mixint_f073_i11_d005 1.0",
  "bbob-biobj-mixint_f073_i11_d010 1.0",
  "bbob-biobj-mixint_f073_i11_d020 1.0",
  "bbob-biobj-mixint_f073_i11_d040 1.0",
  "bbob-biobj-mixint_f073_i11_d080 1.0",
  "bbob-biobj-mixint_f073_i11_d160 1.0",
  "bbob-biobj-mixint_f073_i12_d005 1.0",
  "bbob-biobj-mixint_f073_i12_d010 1.0",
  "bbob-biobj-mixint_f073_i12_d020 1.0",
  "bbob-biobj-mixint_f073_i12_d040 1.0",
  "bbob-biobj-mixint_f073_i12_d080 1.0",
  "bbob-biobj-mixint_f073_i12_d160 1.0",
  "bbob-biobj-mixint_f073_i13_d005 1.0",
  "bbob-biobj-mixint_f073_i13_d010 1.0",
  "bbob-biobj-mixint_f073_i13_d020 1.0",
  "bbob-biobj-mixint_f073_i13_d040 1.0",
  "bbob-biobj-mixint_f073_i13_d080 1.0",
  "bbob-biobj-mixint_f073_i13_d160 1.0",
  "bbob-biobj-mixint_f073_i14_d005 1.0",
  "bbob-biobj-mixint_f073_i14_d010 1.0",
  "bbob-biobj-mixint_f073_i14_d020 1.0",
  "bbob-biobj-mixint_f073_i14_d040 1.0",
  "bbob-biobj-mixint_f073_i14_d080 1.0",
  "bbob-biobj-mixint_f073_i14_d160 1.0",
  "bbob-biobj-mixint_f073_i15_d005 1.0",
  "bbob-biobj-mixint_f073_i15_d010 1.0",
  "bbob-biobj-mixint_f073_i15_d020 1.0",
  "bbob-biobj-mixint_f073_i15_d040 1.0",
  "bbob-biobj-mixint_f073_i15_d080 1.0",
  "bbob-biobj-mixint_f073_i15_d160 1.0",
  "bbob-biobj-mixint_f074_i01_d005 1.0",
  "bbob-biobj-mixint_f074_i01_d010 1.0",
  "bbob-biobj-mixint_f074_i01_d020 1.0",
  "bbob-biobj-mixint_f074_i01_d040 1.0",
  "bbob-biobj-mixint_f074_i01_d080 1.0",
  "bbob-biobj-mixint_f074_i01_d160 1.0",
  "bbob-biobj-mixint_f074_i02_d005 1.0",
  "bbob-biobj-mixint_f074_i02_d010 1.0",
  "bbob-biobj-mixint_f074_i02_d020 1.0",
  "bbob-biobj-mixint_f074_i02_d040 1.0",
  "bbob-biobj-mixint_f074_i02_d080 1.0",
  "bbob-biobj-mixint_f074_i02_d160 1.0",
  "bbob-biobj-mixint_f074_i03_d005 1.0",
  "bbob-biobj-mixint_f074_i03_d010 1.0",
  "bbob-biobj-mixint_f074_i03_d020 1.0",
  "bbob-biobj-mixint_f074_i03_d040 1.0",
  "bbob-biobj-mixint_f074_i03_d080 1.0",
  "bbob-biobj-mixint_f074_i03_d160 1.0",
  "bbob-biobj-mixint_f074_i04_d005 1.0",
  "bbob-biobj-mixint_f074_i04_d010 1.0",
  "bbob-biobj-mixint_f074_i04_d020 1.0",
  "bbob-biobj-mixint_f074_i04_d040 1.0",
  "bbob-biobj-mixint_f074_i04_d080 1.0",
  "bbob-biobj-mixint_f074_i04_d160 1.0",
  "bbob-biobj-mixint_f074_i05_d005 1.0",
  "bbob-biobj-mixint_f074_i05_d010 1.0",
  "bbob-biobj-mixint_f074_i05_d020 1.0",
  "bbob-biobj-mixint_f074_i05_d040 1.0",
  "bbob-biobj-mixint_f074_i05_d080 1.0",
  "bbob-biobj-mixint_f074_i05_d160 1.0",
  "bbob-biobj-mixint_f074_i06_d005 1.0",
  "bbob-biobj-mixint_f074_i06_d010 1.0",
  "bbob-biobj-mixint_f074_i06_d020 1.0",
  "bbob-biobj-mixint_f074_i06_d040 1.0",
  "bbob-biobj-mixint_f074_i06_d080 1.0",
  "bbob-biobj-mixint_f074_i06_d160 1.0",
  "bbob-biobj-mixint_f074_i07_d005 1.0",
  "bbob-biobj-mixint_f074_i07_d010 1.0",
  "bbob-biobj-mixint_f074_i07_d020 1.0",
  "bbob-biobj-mixint_f074_i07_d040 1.0",
  "bbob-biobj-mixint_f074_i07_d080 1.0",
  "bbob-biobj-mixint_f074_i07_d160 1.0",
  "bbob-biobj-mixint_f074_i08_d005 1.0",
  "bbob-biobj-mixint_f074_i08_d010 1.0",
  "bbob-biobj-mixint_f074_i08_d020 1.0",
  "bbob-biobj-mixint_f074_i08_d040 1.0",
  "bbob-biobj-mixint_f074_i08_d080 1.0",
  "bbob-biobj-mixint_f074_i08_d160 1.0",
  "bbob-biobj-mixint_f074_i09_d005 1.0",
  "bbob-biobj-mixint_f074_i09_d010 1.0",
  "bbob-biobj-mixint_f074_i09_d020 1.0",
  "bbob-biobj-mixint_f074_i09_d040 1.0",
  "bbob-biobj-mixint_f074_i09_d080 1.0",
  "bbob-biobj-mixint_f074_i09_d160 1.0",
  "bbob-biobj-mixint_f074_i10_d005 1.0",
  "bbob-biobj-mixint_f074_i10_d010 1.0",
  "bbob-biobj-mixint_f074_i10_d020 1.0",
  "bbob-biobj-mixint_f074_i10_d040 1.0",
  "bbob-biobj-mixint_f074_i10_d080 1.0",
  "bbob-biobj-mixint_f074_i10_d160 1.0",
  "bbob-biobj-mixint_f074_i11_d005 1.0",
  "bbob-biobj-mixint_f074_i11_d010 1.0",
  "bbob-biobj-mixint_f074_i11_d020 1.0",
  "bbob-biobj-mixint_f074_i11_d040 1.0",
  "bbob-biobj-mixint_f074_i11_d080 1.0",
  "bbob-biobj-mixint_f074_i11_d160 1.0",
  "bbob-biobj-mixint_f074_i12_d005 1.0",
  "bbob-biobj-mixint_f074_i12_d010 1.0",
  "bbob-biobj-mixint_f074_i12_d020 1.0",
  "bbob-biobj-mixint_f074_i12_d040 1.0",
  "bbob-biobj-mixint_f074_i12_d080 1.0",
  "bbob-biobj-mixint_f074_i12_d160 1.0",
  "bbob-biobj-mixint_f074_i13_d005 1.0",
  "bbob-biobj-mixint_f074_i13_d010 1.0",
  "bbob-biobj-mixint_f074_i13_d020 1.0",
  "bbob-biobj-mixint_f074_i13_d040 1.0",
  "bbob-biobj-mixint_f074_i13_d080 1.0",
  "bbob-biobj-mixint_f074_i13_d160 1.0",
  "bbob-biobj-mixint_f074_i14_d005 1.0",
  "bbob-biobj-mixint_f074_i14_d010 1.0",
  "bbob-biobj-mixint_f074_i14_d020 1.0",
  "bbob-biobj-mixint_f074_i14_d040 1.0",
  "bbob-biobj-mixint_f074_i14_d080 1.0",
  "bbob-biobj-mixint_f074_i14_d160 1.0",
  "bbob-biobj-mixint_f074_i15_d005 1.0",
  "bbob-biobj-mixint_f074_i15_d010 1.0",
  "bbob-biobj-mixint_f074_i15_d020 1.0",
  "bbob-biobj-mixint_f074_i15_d040 1.0",
  "bbob-biobj-mixint_f074_i15_d080 1.0",
  "bbob-biobj-mixint_f074_i15_d160 1.0",
  "bbob-biobj-mixint_f075_i01_d005 1.0",
  "bbob-biobj-mixint_f075_i01_d010 1.0",
  "bbob-biobj-mixint_f075_i01_d020 1.0",
  "bbob-biobj-mixint_f075_i01_d040 1.0",
  "bbob-biobj-mixint_f075_i01_d080 1.0",
  "bbob-biobj-mixint_f075_i01_d160 1.0",
  "bbob-biobj-mixint_f075_i02_d005 1.0",
  "bbob-biobj-mixint_f075_i02_d010 1.0",
  "bbob-biobj-mixint_f075_i02_d020 1.0",
  "bbob-biobj-mixint_f075_i02_d040 1.0",
  "bbob-biobj-mixint_f075_i02_d080 1.0",
  "bbob-biobj-mixint_f075_i02_d160 1.0",
  "bbob-biobj-mixint_f075_i03_d005 1.0",
  "bbob-biobj-mixint_f075_i03_d010 1.0",
  "bbob-biobj-mixint_f075_i03_d020 1.0",
  "bbob-biobj-mixint_f075_i03_d040 1.0",
  "bbob-biobj-mixint_f075_i03_d080 1.0",
  "bbob-biobj-mixint_f075_i03_d160 1.0",
  "bbob-biobj-mixint_f075_i04_d005 1.0",
  "bbob-biobj-mixint_f075_i04_d010 1.0",
  "bbob-biobj-mixint_f075_i04_d020 1.0",
  "bbob-biobj-mixint_f075_i04_d040 1.0",
  "bbob-biobj-mixint_f075_i04_d080 1.0",
  "bbob-biobj-mixint_f075_i04_d160 1.0",
  "bbob-biobj-mixint_f075_i05_d005 1.0",
  "bbob-biobj-mixint_f075_i05_d010 1.0",
  "bbob-biobj-mixint_f075_i05_d020 1.0",
  "bbob-biobj-mixint_f075_i05_d040 1.0",
  "bbob-biobj-mixint_f075_i05_d080 1.0",
  "bbob-biobj-mixint_f075_i05_d160 1.0",
  "bbob-biobj-mixint_f075_i06_d005 1.0",
  "bbob-biobj-mixint_f075_i06_d010 1.0",
  "bbob-biobj-mixint_f075_i06_d020 1.0",
  "bbob-biobj-mixint_f075_i06_d040 1.0",
  "bbob-biobj-mixint_f075_i06_d080 1.0",
  "bbob-biobj-mixint_f075_i06_d160 1.0",
  "bbob-biobj-mixint_f075_i07_d005 1.0",
  "bbob-biobj-mixint_f075_i07_d010 1.0",
  "bbob-biobj-mixint_f075_i07_d020 1.0",
  "bbob-biobj-mixint_f075_i07_d040 1.0",
  "bbob-biobj-mixint_f075_i07_d080 1.0",
  "bbob-biobj-mixint_f075_i07_d160 1.0",
  "bbob-biobj-mixint_f075_i08_d005 1.0",
  "bbob-biobj-mixint_f075_i08_d010 1.0",
  "bbob-biobj-mixint_f075_i08_d020 1.0",
  "bbob-biobj-mixint_f075_i08_d040 1.0",
  "bbob-biobj-mixint_f075_i08_d080 1.0",
  "bbob-biobj-mixint_f075_i08_d160 1.0",
  "bbob-biobj-mixint_f075_i09_d005 1.0",
  "bbob-biobj-mixint_f075_i09_d010 1.0",
  "bbob-biobj-mixint_f075_i09_d020 1.0",
  "bbob-biobj-mixint_f075_i09_d040 1.0",
  "bbob-biobj-mixint_f075_i09_d080 1.0",
  "bbob-biobj-mixint_f075_i09_d160 1.0",
  "bbob-biobj-mixint_f075_i10_d005 1.0",
  "bbob-biobj-mixint_f075_i10_d010 1.0",
  "bbob-biobj-mixint_f075_i10_d020 1.0",
  "bbob-biobj-mixint_f075_i10_d040 1.0",
  "bbob-biobj-mixint_f075_i10_d080 1.0",
  "bbob-biobj-mixint_f075_i10_d160 1.0",
  "bbob-biobj-mixint_f075_i11_d005 1.0",
  "bbob-biobj-mixint_f075_i11_d010 1.0",
  "bbob-biobj-mixint_f075_i11_d020 1.0",
  "bbob-biobj-mixint_f075_i11_d040 1.0",
  "bbob-biobj-mixint_f075_i11_d080 1.0",
  "bbob-biobj-mixint_f075_i11_d160 1.0",
  "bbob-biobj-mixint_f075_i12_d005 1.0",
  "bbob-biobj-mixint_f075_i12_d010 1.0",
  "bbob-biobj-mixint_f075_i12_d020 1.0",
  "bbob-biobj-mixint_f075_i12_d040 1.0",
  "bbob-biobj-mixint_f075_i12_d080 1.0",
  "bbob-biobj-mixint_f075_i12_d160 1.0",
  "bbob-biobj-mixint_f075_i13_d005 1.0",
  "bbob-biobj-mixint_f075_i13_d010 1.0",
  "bbob-biobj-mixint_f075_i13_d020 1.0",
  "bbob-biobj-mixint_f075_i13_d040 1.0",
  "bbob-biobj-mixint_f075_i13_d080 1.0",
  "bbob-biobj-mixint_f075_i13_d160 1.0",
  "bbob-biobj-mixint_f075_i14_d005 1.0",
  "bbob-biobj-mixint_f075_i14_d010 1.0",
  "bbob-biobj-mixint_f075_i14_d020 1.0",
  "bbob-biobj-mixint_f075_i14_d040 1.0",
  "bbob-biobj-mixint_f075_i14_d080 1.0",
  "bbob-biobj-mixint_f075_i14_d160 1.0",
  "bbob-biobj-mixint_f075_i15_d005 1.0",
  "bbob-biobj-mixint_f075_i15_d010 1.0",
  "bbob-biobj-mixint_f075_i15_d020 1.0",
  "bbob-biobj-mixint_f075_i15_d040 1.0",
  "bbob-biobj-mixint_f075_i15_d080 1.0",
  "bbob-biobj-mixint_f075_i15_d160 1.0",
  "bbob-biobj-mixint_f076_i01_d005 1.0",
  "bbob-biobj-mixint_f076_i01_d010 1.0",
  "bbob-biobj-mixint_f076_i01_d020 1.0",
  "bbob-biobj-mixint_f076_i01_d040 1.0",
  "bbob-biobj-mixint_f076_i01_d080 1.0",
  "bbob-biobj-mixint_f076_i01_d160 1.0",
  "bbob-biobj-mixint_f076_i02_d005 1.0",
  "bbob-biobj-mixint_f076_i02_d010 1.0",
  "bbob-biobj-mixint_f076_i02_d020 1.0",
  "bbob-biobj-mixint_f076_i02_d040 1.0",
  "bbob-biobj-mixint_f076_i02_d080 1.0",
  "bbob-biobj-mixint_f076_i02_d160 1.0",
  "bbob-biobj-mixint_f076_i03_d005 1.0",
  "bbob-biobj-mixint_f076_i03_d010 1.0",
  "bbob-biobj-mixint_f076_i03_d020 1.0",
  "bbob-biobj-mixint_f076_i03_d040 1.0",
  "bbob-biobj-mixint_f076_i03_d080 1.0",
  "bbob-biobj-mixint_f076_i03_d160 1.0",
  "bbob-biobj-mixint_f076_i04_d005 1.0",
  "bbob-biobj-mixint_f076_i04_d010 1.0",
  "bbob-biobj-mixint_f076_i04_d020 1.0",
  "bbob-biobj-mixint_f076_i04_d040 1.0",
  "bbob-biobj-mixint_f076_i04_d080 1.0",
  "bbob-biobj-mixint_f076_i04_d160 1.0",
  "bbob-biobj-mixint_f076_i05_d005 1.0",
  "bbob-biobj-mixint_f076_i05_d010 1.0",
  "bbob-biobj-mixint_f076_i05_d020 1.0",
  "bbob-biobj-mixint_f076_i05_d040 1.0",
  "bbob-biobj-mixint_f076_i05_d080 1.0",
  "bbob-biobj-mixint_f076_i05_d160 1.0",
  "bbob-biobj-mixint_f076_i06_d005 1.0",
  "bbob-biobj-mixint_f076_i06_d010 1.0",
  "bbob-biobj-mixint_f076_i06_d020 1.0",
  "bbob-biobj-mixint_f076_i06_d040 1.0",
  "bbob-biobj-mixint_f076_i06_d080 1.0",
  "bbob-biobj-mixint_f076_i06_d160 1.0",
  "bbob-biobj-mixint_f076_i07_d005 1.0",
  "bbob-biobj-mixint_f076_i07_d010 1.0",
  "bbob-biobj-mixint_f076_i07_d020 1.0",
  "bbob-biobj-mixint_f076_i07_d040 1.0",
  "bbob-biobj-mixint_f076_i07_d080 1.0",
  "bbob-biobj-mixint_f076_i07_d160 1.0",
  "bbob-biobj-mixint_f076_i08_d005 1.0",
  "bbob-biobj-mixint_f076_i08_d010 1.0",
  "bbob-biobj-mixint_f076_i08_d020 1.0",
  "bbob-biobj-mixint_f076_i08_d040 1.0",
  "bbob-biobj-mixint_f076_i08_d080 1.0",
  "bbob-biobj-mixint_f076_i08_d160 1.0",
  "bbob-biobj-mixint_f076_i09_d005 1.0",
  "bbob-biobj-mixint_f076_i09_d010 1.0",
  "bbob-biobj-mixint_f076_i09_d020 1.0",
  "bbob-biobj-mixint_f076_i09_d040 1.0",
  "bbob-biobj-mixint_f076_i09_d080 1.0",
  "bbob-biobj-mixint_f076_i09_d160 1.0",
  "bbob-biobj-mixint_f076_i10_d005 1.0",
  "bbob-biobj-mixint_f076_i10_d010 1.0",
  "bbob-biobj-mixint_f076_i10_d020 1.0",
  "bbob-biobj-mixint_f076_i10_d040 1.0",
  "bbob-biobj-mixint_f076_i10_d080 1.0",
  "bbob-biobj-mixint_f076_i10_d160 1.0",
  "bbob-biobj-mixint_f076_i11_d005 1.0",
  "bbob-biobj-mixint_f076_i11_d010 1.0",
  "bbob-biobj-mixint_f076_i11_d020 1.0",
  "bbob-biobj-mixint_f076_i11_d040 1.0",
  "bbob-biobj-mixint_f076_i11_d080 1.0",
  "bbob-biobj-mixint_f076_i11_d160 1.0",
  "bbob-biobj-mixint_f076_i12_d005 1.0",
  "bbob-biobj-mixint_f076_i12_d010 1.0",
  "bbob-biobj-mixint_f076_i12_d020 1.0",
  "bbob-biobj-mixint_f076_i12_d040 1.0",
  "bbob-biobj-mixint_f076_i12_d080 1.0",
  "bbob-biobj-mixint_f076_i12_d160 1.0",
  "bbob-biobj-mixint_f076_i13_d005 1.0",
  "bbob-biobj-mixint_f076_i13_d010 1.0",
  "bbob-biobj-mixint_f076_i13_d020 1.0",
  "bbob-biobj-mixint_f076_i13_d040 1.0",
  "bbob-biobj-mixint_f076_i13_d080 1.0",
  "bbob-biobj-mixint_f076_i13_d160 1.0",
  "bbob-biobj-mixint_f076_i14_d005 1.0",
  "bbob-biobj-mixint_f076_i14_d010 1.0",
  "bbob-biobj-mixint_f076_i14_d020 1.0",
  "bbob-biobj-mixint_f076_i14_d040 1.0",
  "bbob-biobj-mixint_f076_i14_d080 1.0",
  "bbob-biobj-mixint_f076_i14_d160 1.0",
  "bbob-biobj-mixint_f076_i15_d005 1.0",
  "bbob-biobj-mixint_f076_i15_d010 1.0",
  "bbob-biobj-mixint_f076_i15_d020 1.0",
  "bbob-biobj-mixint_f076_i15_d040 1.0",
  "bbob-biobj-mixint_f076_i15_d080 1.0",
  "bbob-biobj-mixint_f076_i15_d160 1.0",
  "bbob-biobj-mixint_f077_i01_d005 1.0",
  "bbob-biobj-mixint_f077_i01_d010 1.0",
  "bbob-biobj-mixint_f077_i01_d020 1.0",
  "bbob-biobj-mixint_f077_i01_d040 1.0",
  "bbob-biobj-mixint_f077_i01_d080 1.0",
  "bbob-biobj-mixint_f077_i01_d160 1.0",
  "bbob-biobj-mixint_f077_i02_d005 1.0",
  "bbob-biobj-mixint_f077_i02_d010 1.0",
  "bbob-biobj-mixint_f077_i02_d020 1.0",
  "bbob-biobj-mixint_f077_i02_d040 1.0",
  "bbob-biobj-mixint_f077_i02_d080 1.0",
  "bbob-biobj-mixint_f077_i02_d160 1.0",
  "bbob-biobj-mixint_f077_i03_d005 1.0",
  "bbob-biobj-mixint_f077_i03_d010 1.0",
  "bbob-biobj-mixint_f077_i03_d020 1.0",
  "bbob-biobj-mixint_f077_i03_d040 1.0",
  "bbob-biobj-mixint_f077_i03_d080 1.0",
  "bbob-biobj-mixint_f077_i03_d160 1.0",
  "bbob-biobj-mixint_f077_i04_d005 1.0",
  "bbob-biobj-mixint_f077_i04_d010 1.0",
  "bbob-biobj-mixint_f077_i04_d020 1.0",
  "bbob-biobj-mixint_f077_i04_d040 1.0",
  "bbob-biobj-mixint_f077_i04_d080 1.0",
  "bbob-biobj-mixint_f077_i04_d160 1.0",
  "bbob-biobj-mixint_f077_i05_d005 1.0",
  "bbob-biobj-mixint_f077_i05_d010 1.0",
  "bbob-biobj-mixint_f077_i05_d020 1.0",
  "bbob-biobj-mixint_f077_i05_d040 1.0",
  "bbob-biobj-mixint_f077_i05_d080 1.0",
  "bbob-biobj-mixint_f077_i05_d160 1.0",
  "bbob-biobj-mixint_f077_i06_d005 1.0",
  "bbob-biobj-mixint_f077_i06_d010 1.0",
  "bbob-biobj-mixint_f077_i06_d020 1.0",
  "bbob-biobj-mixint_f077_i06_d040 1.0",
  "bbob-biobj-mixint_f077_i06_d080 1.0",
  "bbob-biobj-mixint_f077_i06_d160 1.0",
  "bbob-biobj-mixint_f077_i07_d005 1.0",
  "bbob-biobj-mixint_f077_i07_d010 1.0",
  "bbob-biobj-mixint_f077_i07_d020 1.0",
  "bbob-biobj-mixint_f077_i07_d040 1.0",
  "bbob-biobj-mixint_f077_i07_d080 1.0",
  "bbob-biobj-mixint_f077_i07_d160 1.0",
  "bbob-biobj-mixint_f077_i08_d005 1.0",
  "bbob-biobj-mixint_f077_i08_d010 1.0",
  "bbob-biobj-mixint_f077_i08_d020 1.0",
  "bbob-biobj-mixint_f077_i08_d040 1.0",
  "bbob-biobj-mixint_f077_i08_d080 1.0",
  "bbob-biobj-mixint_f077_i08_d160 1.0",
  "bbob-biobj-mixint_f077_i09_d005 1.0",
  "bbob-biobj-mixint_f077_i09_d010 1.0",
  "bbob-biobj-mixint_f077_i09_d020 1.0",
  "bbob-biobj-mixint_f077_i09_d040 1.0",
  "bbob-biobj-mixint_f077_i09_d080 1.0",
  "bbob-biobj-mixint_f077_i09_d160 1.0",
  "bbob-biobj-mixint_f077_i10_d005 1.0",
  "bbob-biobj-mixint_f077_i10_d010 1.0",
  "bbob-biobj-mixint_f077_i10_d020 1.0",
  "bbob-biobj-mixint_f077_i10_d040 1.0",
  "bbob-biobj-mixint_f077_i10_d080 1.0",
  "bbob-biobj-mixint_f077_i10_d160 1.0",
  "bbob-biobj-mixint_f077_i11_d005 1.0",
  "bbob-biobj-mixint_f077_i11_d010 1.0",
  "bbob-biobj-mixint_f077_i11_d020 1.0",
  "bbob-biobj-mixint_f077_i11_d040 1.0",
  "bbob-biobj-mixint_f077_i11_d080 1.0",
  "bbob-biobj-mixint_f077_i11_d160 1.0",
  "bbob-biobj-mixint_f077_i12_d005 1.0",
  "bbob-biobj-mixint_f077_i12_d010 1.0",
  "bbob-biobj-mixint_f077_i12_d020 1.0",
  "bbob-biobj-mixint_f077_i12_d040 1.0",
  "bbob-biobj-mixint_f077_i12_d080 1.0",
  "bbob-biobj-mixint_f077_i12_d160 1.0",
  "bbob-biobj-mixint_f077_i13_d005 1.0",
  "bbob-biobj-mixint_f077_i13_d010 1.0",
  "bbob-biobj-mixint_f077_i13_d020 1.0",
  "bbob-biobj-mixint_f077_i13_d040 1.0",
  "bbob-biobj-mixint_f077_i13_d080 1.0",
  "bbob-biobj-mixint_f077_i13_d160 1.0",
  "bbob-biobj-mixint_f077_i14_d005 1.0",
  "bbob-biobj-mixint_f077_i14_d010 1.0",
  "bbob-biobj-mixint_f077_i14_d020 1.0",
  "bbob-biobj-mixint_f077_i14_d040 1.0",
  "bbob-biobj-mixint_f077_i14_d080 1.0",
  "bbob-biobj-mixint_f077_i14_d160 1.0",
  "bbob-biobj-mixint_f077_i15_d005 1.0",
  "bbob-biobj-mixint_f077_i15_d010 1.0",
  "bbob-biobj-mixint_f077_i15_d020 1.0",
  "bbob-biobj-mixint_f077_i15_d040 1.0",
  "bbob-biobj-mixint_f077_i15_d080 1.0",
  "bbob-biobj-mixint_f077_i15_d160 1.0",
  "bbob-biobj-mixint_f078_i01_d005 1.0",
  "bbob-biobj-mixint_f078_i01_d010 1.0",
  "bbob-biobj-mixint_f078_i01_d020 1.0",
  "bbob-biobj-mixint_f078_i01_d040 1.0",
  "bbob-biobj-mixint_f078_i01_d080 1.0",
  "bbob-biobj-mixint_f078_i01_d160 1.0",
  "bbob-biobj-mixint_f078_i02_d005 1.0",
  "bbob-biobj-mixint_f078_i02_d010 1.0",
  "bbob-biobj-mixint_f078_i02_d020 1.0",
  "bbob-biobj-mixint_f078_i02_d040 1.0",
  "bbob-biobj-mixint_f078_i02_d080 1.0",
  "bbob-biobj-mixint_f078_i02_d160 1.0",
  "bbob-biobj-mixint_f078_i03_d005 1.0",
  "bbob-biobj-mixint_f078_i03_d010 1.0",
  "bbob-biobj-mixint_f078_i03_d020 1.0",
  "bbob-biobj-mixint_f078_i03_d040 1.0",
  "bbob-biobj-mixint_f078_i03_d080 1.0",
  "bbob-biobj-mixint_f078_i03_d160 1.0",
  "bbob-biobj-mixint_f078_i04_d005 1.0",
  "bbob-biobj-mixint_f078_i04_d010 1.0",
  "bbob-biobj-mixint_f078_i04_d020 1.0",
  "bbob-biobj-mixint_f078_i04_d040 1.0",
  "bbob-biobj-mixint_f078_i04_d080 1.0",
  "bbob-biobj-mixint_f078_i04_d160 1.0",
  "bbob-biobj-mixint_f078_i05_d005 1.0",
  "bbob-biobj-mixint_f078_i05_d010 1.0",
  "bbob-biobj-mixint_f078_i05_d020 1.0",
  "bbob-biobj-mixint_f078_i05_d040 1.0",
  "bbob-biobj-mixint_f078_i05_d080 1.0",
  "bbob-biobj-mixint_f078_i05_d160 1.0",
  "bbob-biobj-mixint_f078_i06_d005 1.0",
  "bbob-biobj-mixint_f078_i06_d010 1.0",
  "bbob-biobj-mixint_f078_i06_d020 1.0",
  "bbob-biobj-mixint_f078_i06_d040 1.0",
  "bbob-biobj-mixint_f078_i06_d080 1.0",
  "bbob-biobj-mixint_f078_i06_d160 1.0",
  "bbob-biobj-mixint_f078_i07_d005 1.0",
  "bbob-biobj-mixint_f078_i07_d010 1.0",
  "bbob-biobj-mixint_f078_i07_d020 1.0",
  "bbob-biobj-mixint_f078_i07_d040 1.0",
  "bbob-biobj-mixint_f078_i07_d080 1.0",
  "bbob-biobj-mixint_f078_i07_d160 1.0",
  "bbob-biobj-mixint_f078_i08_d005 1.0",
  "bbob-biobj-mixint_f078_i08_d010 1.0",
  "bbob-biobj-mixint_f078_i08_d020 1.0",
  "bbob-biobj-mixint_f078_i08_d040 1.0",
  "bbob-biobj-mixint_f078_i08_d080 1.0",
  "bbob-biobj-mixint_f078_i08_d160 1.0",
  "bbob-biobj-mixint_f078_i09_d005 1.0",
  "bbob-biobj-mixint_f078_i09_d010 1.0",
  "bbob-biobj-mixint_f078_i09_d020 1.0",
  "bbob-biobj-mixint_f078_i09_d040 1.0",
  "bbob-biobj-mixint_f078_i09_d080 1.0",
  "bbob-biobj-mixint_f078_i09_d160 1.0",
  "bbob-biobj-mixint_f078_i10_d005 1.0",
  "bbob-biobj-mixint_f078_i10_d010 1.0",
  "bbob-biobj-mixint_f078_i10_d020 1.0",
  "bbob-biobj-mixint_f078_i10_d040 1.0",
  "bbob-biobj-mixint_f078_i10_d080 1.0",
  "bbob-biobj-mixint_f078_i10_d160 1.0",
  "bbob-biobj-mixint_f078_i11_d005 1.0",
  "bbob-biobj-mixint_f078_i11_d010 1.0",
  "bbob-biobj-mixint_f078_i11_d020 1.0",
  "bbob-biobj-mixint_f078_i11_d040 1.0",
  "bbob-biobj-mixint_f078_i11_d080 1.0",
  "bbob-biobj-mixint_f078_i11_d160 1.0",
  "bbob-biobj-mixint_f078_i12_d005 1.0",
  "bbob-biobj-mixint_f078_i12_d010 1.0",
  "bbob-biobj-mixint_f078_i12_d020 1.0",
  "bbob-biobj-mixint_f078_i12_d040 1.0",
  "bbob-biobj-mixint_f078_i12_d080 1.0",
  "bbob-biobj-mixint_f078_i12_d160 1.0",
  "bbob-biobj-mixint_f078_i13_d005 1.0",
  "bbob-biobj-mixint_f078_i13_d010 1.0",
  "bbob-biobj-mixint_f078_i13_d020 1.0",
  "bbob-biobj-mixint_f078_i13_d040 1.0",
  "bbob-biobj-mixint_f078_i13_d080 1.0",
  "bbob-biobj-mixint_f078_i13_d160 1.0",
  "bbob-biobj-mixint_f078_i14_d005 1.0",
  "bbob-biobj-mixint_f078_i14_d010 1.0",
  "bbob-biobj-mixint_f078_i14_d020 1.0",
  "bbob-biobj-mixint_f078_i14_d040 1.0",
  "bbob-biobj-mixint_f078_i14_d080 1.0",
  "bbob-biobj-mixint_f078_i14_d160 1.0",
  "bbob-biobj-mixint_f078_i15_d005 1.0",
  "bbob-biobj-mixint_f078_i15_d010 1.0",
  "bbob-biobj-mixint_f078_i15_d020 1.0",
  "bbob-biobj-mixint_f078_i15_d040 1.0",
  "bbob-biobj-mixint_f078_i15_d080 1.0",
  "bbob-biobj-mixint_f078_i15_d160 1.0",
  "bbob-biobj-mixint_f079_i01_d005 1.0",
  "bbob-biobj-mixint_f079_i01_d010 1.0",
  "bbob-biobj-mixint_f079_i01_d020 1.0",
  "bbob-biobj-mixint_f079_i01_d040 1.0",
  "bbob-biobj-mixint_f079_i01_d080 1.0",
  "bbob-biobj-mixint_f079_i01_d160 1.0",
  "bbob-biobj-mixint_f079_i02_d005 1.0",
  "bbob-biobj-mixint_f079_i02_d010 1.0",
  "bbob-biobj-mixint_f079_i02_d020 1.0",
  "bbob-biobj-mixint_f079_i02_d040 1.0",
  "bbob-biobj-mixint_f079_i02_d080 1.0",
  "bbob-biobj-mixint_f079_i02_d160 1.0",
  "bbob-biobj-mixint_f079_i03_d005 1.0",
  "bbob-biobj-mixint_f079_i03_d010 1.0",
  "bbob-biobj-mixint_f079_i03_d020 1.0",
  "bbob-biobj-mixint_f079_i03_d040 1.0",
  "bbob-biobj-mixint_f079_i03_d080 1.0",
  "bbob-biobj-mixint_f079_i03_d160 1.0",
  "bbob-biobj-mixint_f079_i04_d005 1.0",
  "bbob-biobj-mixint_f079_i04_d010 1.0",
  "bbob-biobj-mixint_f079_i04_d020 1.0",
  "bbob-biobj-mixint_f079_i04_d040 1.0",
  "bbob-biobj-mixint_f079_i04_d080 1.0",
  "bbob-biobj-mixint_f079_i04_d160 1.0",
  "bbob-biobj-mixint_f079_i05_d005 1.0",
  "bbob-biobj-mixint_f079_i05_d010 1.0",
  "bbob-biobj-mixint_f079_i05_d020 1.0",
  "bbob-biobj-mixint_f079_i05_d040 1.0",
  "bbob-biobj-mixint_f079_i05_d080 1.0",
  "bbob-biobj-mixint_f079_i05_d160 1.0",
  "bbob-biobj-mixint_f079_i06_d005 1.0",
  "bbob-biobj-mixint_f079_i06_d010 1.0",
  "bbob-biobj-mixint_f079_i06_d020 1.0",
  "bbob-biobj-mixint_f079_i06_d040 1.0",
  "bbob-biobj-mixint_f079_i06_d080 1.0",
  "bbob-biobj-mixint_f079_i06_d160 1.0",
  "bbob-biobj-mixint_f079_i07_d005 1.0",
  "bbob-biobj-mixint_f079_i07_d010 1.0",
  "bbob-biobj-mixint_f079_i07_d020 1.0",
  "bbob-biobj-mixint_f079_i07_d040 1.0",
  "bbob-biobj-mixint_f079_i07_d080 1.0",
  "bbob-biobj-mixint_f079_i07_d160 1.0",
  "bbob-biobj-mixint_f079_i08_d005 1.0",
  "bbob-biobj-mixint_f079_i08_d010 1.0",
  "bbob-biobj-mixint_f079_i08_d020 1.0",
  "bbob-biobj-mixint_f079_i08_d040 1.0",
  "bbob-biobj-mixint_f079_i08_d080 1.0",
  "bbob-biobj-mixint_f079_i08_d160 1.0",
  "bbob-biobj-mixint_f079_i09_d005 1.0",
  "bbob-biobj-mixint_f079_i09_d010 1.0",
  "bbob-biobj-mixint_f079_i09_d020 1.0",
  "bbob-biobj-mixint_f079_i09_d040 1.0",
  "bbob-biobj-mixint_f079_i09_d080 1.0",
  "bbob-biobj-mixint_f079_i09_d160 1.0",
  "bbob-biobj-mixint_f079_i10_d005 1.0",
  "bbob-biobj-mixint_f079_i10_d010 1.0",
  "bbob-biobj-mixint_f079_i10_d020 1.0",
  "bbob-biobj-mixint_f079_i10_d040 1.0",
  "bbob-biobj-mixint_f079_i10_d080 1.0",
  "bbob-biobj-mixint_f079_i10_d160 1.0",
  "bbob-biobj-mixint_f079_i11_d005 1.0",
  "bbob-biobj-mixint_f079_i11_d010 1.0",
  "bbob-biobj-mixint_f079_i11_d020 1.0",
  "bbob-biobj-mixint_f079_i11_d040 1.0",
  "bbob-biobj-mixint_f079_i11_d080 1.0",
  "bbob-biobj-mixint_f079_i11_d160 1.0",
  "bbob-biobj-mixint_f079_i12_d005 1.0",
  "bbob-biobj-mixint_f079_i12_d010 1.0",
  "bbob-biobj-mixint_f079_i12_d020 1.0",
  "bbob-biobj-mixint_f079_i12_d040 1.0",
  "bbob-biobj-mixint_f079_i12_d080 1.0",
  "bbob-biobj-mixint_f079_i12_d160 1.0",
  "bbob-biobj-mixint_f079_i13_d005 1.0",
  "bbob-biobj-mixint_f079_i13_d010 1.0",
  "bbob-biobj-mixint_f079_i13_d020 1.0",
  "bbob-biobj-mixint_f079_i13_d040 1.0",
  "bbob-biobj-mixint_f079_i13_d080 1.0",
  "bbob-biobj-mixint_f079_i13_d160 1.0",
  "bbob-biobj-mixint_f079_i14_d005 1.0",
  "bbob-biobj-mixint_f079_i14_d010 1.0",
  "bbob-biobj-mixint_f079_i14_d020 1.0",
  "bbob-biobj-mixint_f079_i14_d040 1.0",
  "bbob-biobj-mixint_f079_i14_d080 1.0",
  "bbob-biobj-mixint_f079_i14_d160 1.0",
  "bbob-biobj-mixint_f079_i15_d005 1.0",
  "bbob-biobj-mixint_f079_i15_d010 1.0",
  "bbob-biobj-mixint_f079_i15_d020 1.0",
  "bbob-biobj-mixint_f079_i15_d040 1.0",
  "bbob-biobj-mixint_f079_i15_d080 1.0",
  "bbob-biobj-mixint_f079_i15_d160 1.0",
  "bbob-biobj-mixint_f080_i01_d005 1.0",
  "bbob-biobj-mixint_f080_i01_d010 1.0",
  "bbob-biobj-mixint_f080_i01_d020 1.0",
  "bbob-biobj-mixint_f080_i01_d040 1.0",
  "bbob-biobj-mixint_f080_i01_d080 1.0",
  "bbob-biobj-mixint_f080_i01_d160 1.0",
  "bbob-biobj-mixint_f080_i02_d005 1.0",
  "bbob-biobj-mixint_f080_i02_d010 1.0",
  "bbob-biobj-mixint_f080_i02_d020 1.0",
  "bbob-biobj-mixint_f080_i02_d040 1.0",
  "bbob-biobj-mixint_f080_i02_d080 1.0",
  "bbob-biobj-mixint_f080_i02_d160 1.0",
  "bbob-biobj-mixint_f080_i03_d005 1.0",
  "bbob-biobj-mixint_f080_i03_d010 1.0",
  "bbob-biobj-mixint_f080_i03_d020 1.0",
  "bbob-biobj-mixint_f080_i03_d040 1.0",
  "bbob-biobj-mixint_f080_i03_d080 1.0",
  "bbob-biobj-mixint_f080_i03_d160 1.0",
  "bbob-biobj-mixint_f080_i04_d005 1.0",
  "bbob-biobj-mixint_f080_i04_d010 1.0",
  "bbob-biobj-mixint_f080_i04_d020 1.0",
  "bbob-biobj-mixint_f080_i04_d040 1.0",
  "bbob-biobj-mixint_f080_i04_d080 1.0",
  "bbob-biobj-mixint_f080_i04_d160 1.0",
  "bbob-biobj-mixint_f080_i05_d005 1.0",
  "bbob-biobj-mixint_f080_i05_d010 1.0",
  "bbob-biobj-mixint_f080_i05_d020 1.0",
  "bbob-biobj-mixint_f080_i05_d040 1.0",
  "bbob-biobj-mixint_f080_i05_d080 1.0",
  "bbob-biobj-mixint_f080_i05_d160 1.0",
  "bbob-biobj-mixint_f080_i06_d005 1.0",
  "bbob-biobj-mixint_f080_i06_d010 1.0",
  "bbob-biobj-mixint_f080_i06_d020 1.0",
  "bbob-biobj-mixint_f080_i06_d040 1.0",
  "bbob-biobj-mixint_f080_i06_d080 1.0",
  "bbob-biobj-mixint_f080_i06_d160 1.0",
  "bbob-biobj-mixint_f080_i07_d005 1.0",
  "bbob-biobj-mixint_f080_i07_d010 1.0",
  "bbob-biobj-mixint_f080_i07_d020 1.0",
  "bbob-biobj-mixint_f080_i07_d040 1.0",
  "bbob-biobj-mixint_f080_i07_d080 1.0",
  "bbob-biobj-mixint_f080_i07_d160 1.0",
  "bbob-biobj-mixint_f080_i08_d005 1.0",
  "bbob-biobj-mixint_f080_i08_d010 1.0",
  "bbob-biobj-mixint_f080_i08_d020 1.0",
  "bbob-biobj-mixint_f080_i08_d040 1.0",
  "bbob-biobj-mixint_f080_i08_d080 1.0",
  "bbob-biobj-mixint_f080_i08_d160 1.0",
  "bbob-biobj-mixint_f080_i09_d005 1.0",
  "bbob-biobj-mixint_f080_i09_d010 1.0",
  "bbob-biobj-mixint_f080_i09_d020 1.0",
  "bbob-biobj-mixint_f080_i09_d040 1.0",
  "bbob-biobj-mixint_f080_i09_d080 1.0",
  "bbob-biobj-mixint_f080_i09_d160 1.0",
  "bbob-biobj-mixint_f080_i10_d005 1.0",
  "bbob-biobj-mixint_f080_i10_d010 1.0",
  "bbob-biobj-mixint_f080_i10_d020 1.0",
  "bbob-biobj-mixint_f080_i10_d040 1.0",
  "bbob-biobj-mixint_f080_i10_d080 1.0",
  "bbob-biobj-mixint_f080_i10_d160 1.0",
  "bbob-biobj-mixint_f080_i11_d005 1.0",
  "bbob-biobj-mixint_f080_i11_d010 1.0",
  "bbob-biobj-mixint_f080_i11_d020 1.0",
  "bbob-biobj-mixint_f080_i11_d040 1.0",
  "bbob-biobj-mixint_f080_i11_d080 1.0",
  "bbob-biobj-mixint_f080_i11_d160 1.0",
  "bbob-biobj-mixint_f080_i12_d005 1.0",
  "bbob-biobj-mixint_f080_i12_d010 1.0",
  "bbob-biobj-mixint_f080_i12_d020 1.0",
  "bbob-biobj-mixint_f080_i12_d040 1.0",
  "bbob-biobj-mixint_f080_i12_d080 1.0",
  "bbob-biobj-mixint_f080_i12_d160 1.0",
  "bbob-biobj-mixint_f080_i13_d005 1.0",
  "bbob-biobj-mixint_f080_i13_d010 1.0",
  "bbob-biobj-mixint_f080_i13_d020 1.0",
  "bbob-biobj-mixint_f080_i13_d040 1.0",
  "bbob-biobj-mixint_f080_i13_d080 1.0",
  "bbob-biobj-mixint_f080_i13_d160 1.0",
  "bbob-biobj-mixint_f080_i14_d005 1.0",
  "bbob-biobj-mixint_f080_i14_d010 1.0",
  "bbob-biobj-mixint_f080_i14_d020 1.0",
  "bbob-biobj-mixint_f080_i14_d040 1.0",
  "bbob-biobj-mixint_f080_i14_d080 1.0",
  "bbob-biobj-mixint_f080_i14_d160 1.0",
  "bbob-biobj-mixint_f080_i15_d005 1.0",
  "bbob-biobj-mixint_f080_i15_d010 1.0",
  "bbob-biobj-mixint_f080_i15_d020 1.0",
  "bbob-biobj-mixint_f080_i15_d040 1.0",
  "bbob-biobj-mixint_f080_i15_d080 1.0",
  "bbob-biobj-mixint_f080_i15_d160 1.0",
  "bbob-biobj-mixint_f081_i01_d005 1.0",
  "bbob-biobj-mixint_f081_i01_d010 1.0",
  "bbob-biobj-mixint_f081_i01_d020 1.0",
  "bbob-biobj-mixint_f081_i01_d040 1.0",
  "bbob-biobj-mixint_f081_i01_d080 1.0",
  "bbob-biobj-mixint_f081_i01_d160 1.0",
  "bbob-biobj-mixint_f081_i02_d005 1.0",
  "bbob-biobj-mixint_f081_i02_d010 1.0",
  "bbob-biobj-mixint_f081_i02_d020 1.0",
  "bbob-biobj-mixint_f081_i02_d040 1.0",
  "bbob-biobj-mixint_f081_i02_d080 1.0",
  "bbob-biobj-mixint_f081_i02_d160 1.0",
  "bbob-biobj-mixint_f081_i03_d005 1.0",
  "bbob-biobj-mixint_f081_i03_d010 1.0",
  "bbob-biobj-mixint_f081_i03_d020 1.0",
  "bbob-biobj-mixint_f081_i03_d040 1.0",
  "bbob-biobj-mixint_f081_i03_d080 1.0",
  "bbob-biobj-mixint_f081_i03_d160 1.0",
  "bbob-biobj-mixint_f081_i04_d005 1.0",
  "bbob-biobj-mixint_f081_i04_d010 1.0",
  "bbob-biobj-mixint_f081_i04_d020 1.0",
  "bbob-biobj-mixint_f081_i04_d040 1.0",
  "bbob-biobj-mixint_f081_i04_d080 1.0",
  "bbob-biobj-mixint_f081_i04_d160 1.0",
  "bbob-biobj-mixint_f081_i05_d005 1.0",
  "bbob-biobj-mixint_f081_i05_d010 1.0",
  "bbob-biobj-mixint_f081_i05_d020 1.0",
  "bbob-biobj-mixint_f081_i05_d040 1.0",
  "bbob-biobj-mixint_f081_i05_d080 1.0",
  "bbob-biobj-mixint_f081_i05_d160 1.0",
  "bbob-biobj-mixint_f081_i06_d005 1.0",
  "bbob-biobj-mixint_f081_i06_d010 1.0",
  "bbob-biobj-mixint_f081_i06_d020 1.0",
  "bbob-biobj-mixint_f081_i06_d040 1.0",
  "bbob-biobj-mixint_f081_i06_d080 1.0",
  "bbob-biobj-mixint_f081_i06_d160 1.0",
  "bbob-biobj-mixint_f081_i07_d005 1.0",
  "bbob-biobj-mixint_f081_i07_d010 1.0",
  "bbob-biobj-mixint_f081_i07_d020 1.0",
  "bbob-biobj-mixint_f081_i07_d040 1.0",
  "bbob-biobj-mixint_f081_i07_d080 1.0",
  "bbob-biobj-mixint_f081_i07_d160 1.0",
  "bbob-biobj-mixint_f081_i08_d005 1.0",
  "bbob-biobj-mixint_f081_i08_d010 1.0",
  "bbob-biobj-mixint_f081_i08_d020 1.0",
  "bbob-biobj-mixint_f081_i08_d040 1.0",
  "bbob-biobj-mixint_f081_i08_d080 1.0",
  "bbob-biobj-mixint_f081_i08_d160 1.0",
  "bbob-biobj-mixint_f081_i09_d005 1.0",
  "bbob-biobj-mixint_f081_i09_d010 1.0",
  "bbob-biobj-mixint_f081_i09_d020 1.0",
  "bbob-biobj-mixint_f081_i09_d040 1.0",
  "bbob-biobj-mixint_f081_i09_d080 1.0",
  "bbob-biobj-mixint_f081_i09_d160 1.0",
  "bbob-biobj-mixint_f081_i10_d005 1.0",
  "bbob-biobj-mixint_f081_i10_d010 1.0",
  "bbob-biobj-mixint_f081_i10_d020 1.0",
  "bbob-biobj-mixint_f081_i10_d040 1.0",
  "bbob-biobj-mixint_f081_i10_d080 1.0",
  "bbob-biobj-mixint_f081_i10_d160 1.0",
  "bbob-biobj-mixint_f081_i11_d005 1.0",
  "bbob-biobj-mixint_f081_i11_d010 1.0",
  "bbob-biobj-mixint_f081_i11_d020 1.0",
  "bbob-biobj-mixint_f081_i11_d040 1.0",
  "bbob-biobj-mixint_f081_i11_d080 1.0",
  "bbob-biobj-mixint_f081_i11_d160 1.0",
  "bbob-biobj-mixint_f081_i12_d005 1.0",
  "bbob-biobj-mixint_f081_i12_d010 1.0",
  "bbob-biobj-mixint_f081_i12_d020 1.0",
  "bbob-biobj-mixint_f081_i12_d040 1.0",
  "bbob-biobj-mixint_f081_i12_d080 1.0",
  "bbob-biobj-mixint_f081_i12_d160 1.0",
  "bbob-biobj-mixint_f081_i13_d005 1.0",
  "bbob-biobj-mixint_f081_i13_d010 1.0",
  "bbob-biobj-mixint_f081_i13_d020 1.0",
  "bbob-biobj-mixint_f081_i13_d040 1.0",
  "bbob-biobj-mixint_f081_i13_d080 1.0",
  "bbob-biobj-mixint_f081_i13_d160 1.0",
  "bbob-biobj-mixint_f081_i14_d005 1.0",
  "bbob-biobj-mixint_f081_i14_d010 1.0",
  "bbob-biobj-mixint_f081_i14_d020 1.0",
  "bbob-biobj-mixint_f081_i14_d040 1.0",
  "bbob-biobj-mixint_f081_i14_d080 1.0",
  "bbob-biobj-mixint_f081_i14_d160 1.0",
  "bbob-biobj-mixint_f081_i15_d005 1.0",
  "bbob-biobj-mixint_f081_i15_d010 1.0",
  "bbob-biobj-mixint_f081_i15_d020 1.0",
  "bbob-biobj-mixint_f081_i15_d040 1.0",
  "bbob-biobj-mixint_f081_i15_d080 1.0",
  "bbob-biobj-mixint_f081_i15_d160 1.0",
  "bbob-biobj-mixint_f082_i01_d005 1.0",
  "bbob-biobj-mixint_f082_i01_d010 1.0",
  "bbob-biobj-mixint_f082_i01_d020 1.0",
  "bbob-biobj-mixint_f082_i01_d040 1.0",
  "bbob-biobj-mixint_f082_i01_d080 1.0",
  "bbob-biobj-mixint_f082_i01_d160 1.0",
  "bbob-biobj-mixint_f082_i02_d005 1.0",
  "bbob-biobj-mixint_f082_i02_d010 1.0",
  "bbob-biobj-mixint_f082_i02_d020 1.0",
  "bbob-biobj-mixint_f082_i02_d040 1.0",
  "bbob-biobj-mixint_f082_i02_d080 1.0",
  "bbob-biobj-mixint_f082_i02_d160 1.0",
  "bbob-biobj-mixint_f082_i03_d005 1.0",
  "bbob-biobj-mixint_f082_i03_d010 1.0",
  "bbob-biobj-mixint_f082_i03_d020 1.0",
  "bbob-biobj-mixint_f082_i03_d040 1.0",
  "bbob-biobj-mixint_f082_i03_d080 1.0",
  "bbob-biobj-mixint_f082_i03_d160 1.0",
  "bbob-biobj-mixint_f082_i04_d005 1.0",
  "bbob-biobj-mixint_f082_i04_d010 1.0",
  "bbob-biobj-mixint_f082_i04_d020 1.0",
  "bbob-biobj-mixint_f082_i04_d040 1.0",
  "bbob-biobj-mixint_f082_i04_d080 1.0",
  "bbob-biobj-mixint_f082_i04_d160 1.0",
  "bbob-biobj-mixint_f082_i05_d005 1.0",
  "bbob-biobj-mixint_f082_i05_d010 1.0",
  "bbob-biobj-mixint_f082_i05_d020 1.0",
  "bbob-biobj-mixint_f082_i05_d040 1.0",
  "bbob-biobj-mixint_f082_i05_d080 1.0",
  "bbob-biobj-mixint_f082_i05_d160 1.0",
  "bbob-biobj-mixint_f082_i06_d005 1.0",
  "bbob-biobj-mixint_f082_i06_d010 1.0",
  "bbob-biobj-mixint_f082_i06_d020 1.0",
  "bbob-biobj-mixint_f082_i06_d040 1.0",
  "bbob-biobj-mixint_f082_i06_d080 1.0",
  "bbob-biobj-mixint_f082_i06_d160 1.0",
  "bbob-biobj-mixint_f082_i07_d005 1.0",
  "bbob-biobj-mixint_f082_i07_d010 1.0",
  "bbob-biobj-mixint_f082_i07_d020 1.0",
  "bbob-biobj-mixint_f082_i07_d040 1.0",
  "bbob-biobj-mixint_f082_i07_d080 1.0",
  "bbob-biobj-mixint_f082_i07_d160 1.0",
  "bbob-biobj-mixint_f082_i08_d005 1.0",
  "bbob-biobj-mixint_f082_i08_d010 1.0",
  "bbob-biobj-mixint_f082_i08_d020 1.0",
  "bbob-biobj-mixint_f082_i08_d040 1.0",
  "bbob-biobj-mixint_f082_i08_d080 1.0",
  "bbob-biobj-mixint_f082_i08_d160 1.0",
  "bbob-biobj-mixint_f082_i09_d005 1.0",
  "bbob-biobj-mixint_f082_i09_d010 1.0",
  "bbob-biobj-mixint_f082_i09_d020 1.0",
  "bbob-biobj-mixint_f082_i09_d040 1.0",
  "bbob-biobj-mixint_f082_i09_d080 1.0",
  "bbob-biobj-mixint_f082_i09_d160 1.0",
  "bbob-biobj-mixint_f082_i10_d005 1.0",
  "bbob-biobj-mixint_f082_i10_d010 1.0",
  "bbob-biobj-mixint_f082_i10_d020 1.0",
  "bbob-biobj-mixint_f082_i10_d040 1.0",
  "bbob-biobj-mixint_f082_i10_d080 1.0",
  "bbob-biobj-mixint_f082_i10_d160 1.0",
  "bbob-biobj-mixint_f082_i11_d005 1.0",
  "bbob-biobj-mixint_f082_i11_d010 1.0",
  "bbob-biobj-mixint_f082_i11_d020 1.0",
  "bbob-biobj-mixint_f082_i11_d040 1.0",
  "bbob-biobj-mixint_f082_i11_d080 1.0",
  "bbob-biobj-mixint_f082_i11_d160 1.0",
  "bbob-biobj-mixint_f082_i12_d005 1.0",
  "bbob-biobj-mixint_f082_i12_d010 1.0",
  "bbob-biobj-mixint_f082_i12_d020 1.0",
  "bbob-biobj-mixint_f082_i12_d040 1.0",
  "bbob-biobj-mixint_f082_i12_d080 1.0",
  "bbob-biobj-mixint_f082_i12_d160 1.0",
  "bbob-biobj-mixint_f082_i13_d005 1.0",
  "bbob-biobj-mixint_f082_i13_d010 1.0",
  "bbob-biobj-mixint_f082_i13_d020 1.0",
  "bbob-biobj-mixint_f082_i13_d040 1.0",
  "bbob-biobj-mixint_f082_i13_d080 1.0",
  "bbob-biobj-mixint_f082_i13_d160 1.0",
  "bbob-biobj-mixint_f082_i14_d005 1.0",
  "bbob-biobj-mixint_f082_i14_d010 1.0",
  "bbob-biobj-mixint_f082_i14_d020 1.0",
  "bbob-biobj-mixint_f082_i14_d040 1.0",
  "bbob-biobj-mixint_f082_i14_d080 1.0",
  "bbob-biobj-mixint_f082_i14_d160 1.0",
  "bbob-biobj-mixint_f082_i15_d005 1.0",
  "bbob-biobj-mixint_f082_i15_d010 1.0",
  "bbob-biobj-mixint_f082_i15_d020 1.0",
  "bbob-biobj-mixint_f082_i15_d040 1.0",
  "bbob-biobj-mixint_f082_i15_d080 1.0",
  "bbob-biobj-mixint_f082_i15_d160 1.0",
  "bbob-biobj-mixint_f083_i01_d005 1.0",
  "bbob-biobj-mixint_f083_i01_d010 1.0",
  "bbob-biobj-mixint_f083_i01_d020 1.0",
  "bbob-biobj-mixint_f083_i01_d040 1.0",
  "bbob-biobj-mixint_f083_i01_d080 1.0",
  "bbob-biobj-mixint_f083_i01_d160 1.0",
  "bbob-biobj-mixint_f083_i02_d005 1.0",
  "bbob-biobj-mixint_f083_i02_d010 1.0",
  "bbob-biobj-mixint_f083_i02_d020 1.0",
  "bbob-biobj-mixint_f083_i02_d040 1.0",
  "bbob-biobj-mixint_f083_i02_d080 1.0",
  "bbob-biobj-mixint_f083_i02_d160 1.0",
  "bbob-biobj-mixint_f083_i03_d005 1.0",
  "bbob-biobj-mixint_f083_i03_d010 1.0",
  "bbob-biobj-mixint_f083_i03_d020 1.0",
  "bbob-biobj-mixint_f083_i03_d040 1.0",
  "bbob-biobj-mixint_f083_i03_d080 1.0",
  "bbob-biobj-mixint_f083_i03_d160 1.0",
  "bbob-biobj-mixint_f083_i04_d005 1.0",
  "bbob-biobj-mixint_f083_i04_d010 1.0",
  "bbob-biobj-mixint_f083_i04_d020 1.0",
  "bbob-biobj-mixint_f083_i04_d040 1.0",
  "bbob-biobj-mixint_f083_i04_d080 1.0",
  "bbob-biobj-mixint_f083_i04_d160 1.0",
  "bbob-biobj-mixint_f083_i05_d005 1.0",
  "bbob-biobj-mixint_f083_i05_d010 1.0",
  "bbob-biobj-mixint_f083_i05_d020 1.0",
  "bbob-biobj-mixint_f083_i05_d040 1.0",
  "bbob-biobj-mixint_f083_i05_d080 1.0",
  "bbob-biobj-mixint_f083_i05_d160 1.0",
  "bbob-biobj-mixint_f083_i06_d005 1.0",
  "bbob-biobj-mixint_f083_i06_d010 1.0",
  "bbob-biobj-mixint_f083_i06_d020 1.0",
  "bbob-biobj-mixint_f083_i06_d040 1.0",
  "bbob-biobj-mixint_f083_i06_d080 1.0",
  "bbob-biobj-mixint_f083_i06_d160 1.0",
  "bbob-biobj-mixint_f083_i07_d005 1.0",
  "bbob-biobj-mixint_f083_i07_d010 1.0",
  "bbob-biobj-mixint_f083_i07_d020 1.0",
  "bbob-biobj-mixint_f083_i07_d040 1.0",
  "bbob-biobj-mixint_f083_i07_d080 1.0",
  "bbob-biobj-mixint_f083_i07_d160 1.0",
  "bbob-biobj-mixint_f083_i08_d005 1.0",
  "bbob-biobj-mixint_f083_i08_d010 1.0",
  "bbob-biobj-mixint_f083_i08_d020 1.0",
  "bbob-biobj-mixint_f083_i08_d040 1.0",
  "bbob-biobj-mixint_f083_i08_d080 1.0",
  "bbob-biobj-mixint_f083_i08_d160 1.0",
  "bbob-biobj-mixint_f083_i09_d005 1.0",
  "bbob-biobj-mixint_f083_i09_d010 1.0",
  "bbob-biobj-mixint_f083_i09_d020 1.0",
  "bbob-biobj-mixint_f083_i09_d040 1.0",
  "bbob-biobj-mixint_f083_i09_d080 1.0",
  "bbob-biobj-mixint_f083_i09_d160 1.0",
  "bbob-biobj-mixint_f083_i10_d005 1.0",
  "bbob-biobj-mixint_f083_i10_d010 1.0",
  "bbob-biobj-mixint_f083_i10_d020 1.0",
  "bbob-biobj-mixint_f083_i10_d040 1.0",
  "bbob-biobj-mixint_f083_i10_d080 1.0",
  "bbob-biobj-mixint_f083_i10_d160 1.0",
  "bbob-biobj-mixint_f083_i11_d005 1.0",
  "bbob-biobj-mixint_f083_i11_d010 1.0",
  "bbob-biobj-mixint_f083_i11_d020 1.0",
  "bbob-biobj-mixint_f083_i11_d040 1.0",
  "bbob-biobj-mixint_f083_i11_d080 1.0",
  "bbob-biobj-mixint_f083_i11_d160 1.0",
  "bbob-biobj-mixint_f083_i12_d005 1.0",
  "bbob-biobj-mixint_f083_i12_d010 1.0",
  "bbob-biobj-mixint_f083_i12_d020 1.0",
  "bbob-biobj-mixint_f083_i12_d040 1.0",
  "bbob-biobj-mixint_f083_i12_d080 1.0",
  "bbob-biobj-mixint_f083_i12_d160 1.0",
  "bbob-biobj-mixint_f083_i13_d005 1.0",
  "bbob-biobj-mixint_f083_i13_d010 1.0",
  "bbob-biobj-mixint_f083_i13_d020 1.0",
  "bbob-biobj-mixint_f083_i13_d040 1.0",
  "bbob-biobj-mixint_f083_i13_d080 1.0",
  "bbob-biobj-mixint_f083_i13_d160 1.0",
  "bbob-biobj-mixint_f083_i14_d005 1.0",
  "bbob-biobj-mixint_f083_i14_d010 1.0",
  "bbob-biobj-mixint_f083_i14_d020 1.0",
  "bbob-biobj-mixint_f083_i14_d040 1.0",
  "bbob-biobj-mixint_f083_i14_d080 1.0",
  "bbob-biobj-mixint_f083_i14_d160 1.0",
  "bbob-biobj-mixint_f083_i15_d005 1.0",
  "bbob-biobj-mixint_f083_i15_d010 1.0",
  "bbob-biobj-mixint_f083_i15_d020 1.0",
  "bbob-biobj-mixint_f083_i15_d040 1.0",
  "bbob-biobj-mixint_f083_i15_d080 1.0",
  "bbob-biobj-mixint_f083_i15_d160 1.0",
  "bbob-biobj-mixint_f084_i01_d005 1.0",
  "bbob-biobj-mixint_f084_i01_d010 1.0",
  "bbob-biobj-mixint_f084_i01_d020 1.0",
  "bbob-biobj-mixint_f084_i01_d040 1.0",
  "bbob-biobj-mixint_f084_i01_d080 1.0",
  "bbob-biobj-mixint_f084_i01_d160 1.0",
  "bbob-biobj-mixint_f084_i02_d005 1.0",
  "bbob-biobj-mixint_f084_i02_d010 1.0",
  "bbob-biobj-mixint_f084_i02_d020 1.0",
  "bbob-biobj-mixint_f084_i02_d040 1.0",
  "bbob-biobj-mixint_f084_i02_d080 1.0",
  "bbob-biobj-mixint_f084_i02_d160 1.0",
  "bbob-biobj-mixint_f084_i03_d005 1.0",
  "bbob-biobj-mixint_f084_i03_d010 1.0",
  "bbob-biobj-mixint_f084_i03_d020 1.0",
  "bbob-biobj-mixint_f084_i03_d040 1.0",
  "bbob-biobj-mixint_f084_i03_d080 1.0",
  "bbob-biobj-mixint_f084_i03_d160 1.0",
  "bbob-biobj-mixint_f084_i04_d005 1.0",
  "bbob-biobj-mixint_f084_i04_d010 1.0",
  "bbob-biobj-mixint_f084_i04_d020 1.0",
  "bbob-biobj-mixint_f084_i04_d040 1.0",
  "bbob-biobj-mixint_f084_i04_d080 1.0",
  "bbob-biobj-mixint_f084_i04_d160 1.0",
  "bbob-biobj-mixint_f084_i05_d005 1.0",
  "bbob-biobj-mixint_f084_i05_d010 1.0",
  "bbob-biobj-mixint_f084_i05_d020 1.0",
  "bbob-biobj-mixint_f084_i05_d040 1.0",
  "bbob-biobj-mixint_f084_i05_d080 1.0",
  "bbob-biobj-mixint_f084_i05_d160 1.0",
  "bbob-biobj-mixint_f084_i06_d005 1.0",
  "bbob-biobj-mixint_f084_i06_d010 1.0",
  "bbob-biobj-mixint_f084_i06_d020 1.0",
  "bbob-biobj-mixint_f084_i06_d040 1.0",
  "bbob-biobj-mixint_f084_i06_d080 1.0",
  "bbob-biobj-mixint_f084_i06_d160 1.0",
  "bbob-biobj-mixint_f084_i07_d005 1.0",
  "bbob-biobj-mixint_f084_i07_d010 1.0",
  "bbob-biobj-mixint_f084_i07_d020 1.0",
  "bbob-biobj-mixint_f084_i07_d040 1.0",
  "bbob-biobj-mixint_f084_i07_d080 1.0",
  "bbob-biobj-mixint_f084_i07_d160 1.0",
  "bbob-biobj-mixint_f084_i08_d005 1.0",
  "bbob-biobj-mixint_f084_i08_d010 1.0",
  "bbob-biobj-mixint_f084_i08_d020 1.0",
  "bbob-biobj-mixint_f084_i08_d040 1.0",
  "bbob-biobj-mixint_f084_i08_d080 1.0",
  "bbob-biobj-mixint_f084_i08_d160 1.0",
  "bbob-biobj-mixint_f084_i09_d005 1.0",
  "bbob-biobj-mixint_f084_i09_d010 1.0",
  "bbob-biobj-mixint_f084_i09_d020 1.0",
  "bbob-biobj-mixint_f084_i09_d040 1.0",
  "bbob-biobj-mixint_f084_i09_d080 1.0",
  "bbob-biobj-mixint_f084_i09_d160 1.0",
  "bbob-biobj-mixint_f084_i10_d005 1.0",
  "bbob-biobj-mixint_f084_i10_d010 1.0",
  "bbob-biobj-mixint_f084_i10_d020 1.0",
  "bbob-biobj-mixint_f084_i10_d040 1.0",
  "bbob-biobj-mixint_f084_i10_d080 1.0",
  "bbob-biobj-mixint_f084_i10_d160 1.0",
  "bbob-biobj-mixint_f084_i11_d005 1.0",
  "bbob-biobj-mixint_f084_i11_d010 1.0",
  "bbob-biobj-mixint_f084_i11_d020 1.0",
  "bbob-biobj-mixint_f084_i11_d040 1.0",
  "bbob-biobj-mixint_f084_i11_d080 1.0",
  "bbob-biobj-mixint_f084_i11_d160 1.0",
  "bbob-biobj-mixint_f084_i12_d005 1.0",
  "bbob-biobj-mixint_f084_i12_d010 1.0",
  "bbob-biobj-mixint_f084_i12_d020 1.0",
  "bbob-biobj-mixint_f084_i12_d040 1.0",
  "bbob-biobj-mixint_f084_i12_d080 1.0",
  "bbob-biobj-mixint_f084_i12_d160 1.0",
  "bbob-biobj-mixint_f084_i13_d005 1.0",
  "bbob-biobj-mixint_f084_i13_d010 1.0",
  "bbob-biobj-mixint_f084_i13_d020 1.0",
  "bbob-biobj-mixint_f084_i13_d040 1.0",
  "bbob-biobj-mixint_f084_i13_d080 1.0",
  "bbob-biobj-mixint_f084_i13_d160 1.0",
  "bbob-biobj-mixint_f084_i14_d005 1.0",
  "bbob-biobj-mixint_f084_i14_d010 1.0",
  "bbob-biobj-mixint_f084_i14_d020 1.0",
  "bbob-biobj-mixint_f084_i14_d040 1.0",
  "bbob-biobj-mixint_f084_i14_d080 1.0",
  "bbob-biobj-mixint_f084_i14_d160 1.0",
  "bbob-biobj-mixint_f084_i15_d005 1.0",
  "bbob-biobj-mixint_f084_i15_d010 1.0",
  "bbob-biobj-mixint_f084_i15_d020 1.0",
  "bbob-biobj-mixint_f084_i15_d040 1.0",
  "bbob-biobj-mixint_f084_i15_d080 1.0",
  "bbob-biobj-mixint_f084_i15_d160 1.0",
  "bbob-biobj-mixint_f085_i01_d005 1.0",
  "bbob-biobj-mixint_f085_i01_d010 1.0",
  "bbob-biobj-mixint_f085_i01_d020 1.0",
  "bbob-biobj-mixint_f085_i01_d040 1.0",
  "bbob-biobj-mixint_f085_i01_d080 1.0",
  "bbob-biobj-mixint_f085_i01_d160 1.0",
  "bbob-biobj-mixint_f085_i02_d005 1.0",
  "bbob-biobj-mixint_f085_i02_d010 1.0",
  "bbob-biobj-mixint_f085_i02_d020 1.0",
  "bbob-biobj-mixint_f085_i02_d040 1.0",
  "bbob-biobj-mixint_f085_i02_d080 1.0",
  "bbob-biobj-mixint_f085_i02_d160 1.0",
  "bbob-biobj-mixint_f085_i03_d005 1.0",
  "bbob-biobj-mixint_f085_i03_d010 1.0",
  "bbob-biobj-mixint_f085_i03_d020 1.0",
  "bbob-biobj-mixint_f085_i03_d040 1.0",
  "bbob-biobj-mixint_f085_i03_d080 1.0",
  "bbob-biobj-mixint_f085_i03_d160 1.0",
  "bbob-biobj-mixint_f085_i04_d005 1.0",
  "bbob-biobj-mixint_f085_i04_d010 1.0",
  "bbob-biobj-mixint_f085_i04_d020 1.0",
  "bbob-biobj-mixint_f085_i04_d040 1.0",
  "bbob-biobj-mixint_f085_i04_d080 1.0",
  "bbob-biobj-mixint_f085_i04_d160 1.0",
  "bbob-biobj-mixint_f085_i05_d005 1.0",
  "bbob-biobj-mixint_f085_i05_d010 1.0",
  "bbob-biobj-mixint_f085_i05_d020 1.0",
  "bbob-biobj-mixint_f085_i05_d040 1.0",
  "bbob-biobj-mixint_f085_i05_d080 1.0",
  "bbob-biobj-mixint_f085_i05_d160 1.0",
  "bbob-biobj-mixint_f085_i06_d005 1.0",
  "bbob-biobj-mixint_f085_i06_d010 1.0",
  "bbob-biobj-mixint_f085_i06_d020 1.0",
  "bbob-biobj-mixint_f085_i06_d040 1.0",
  "bbob-biobj-mixint_f085_i06_d080 1.0",
  "bbob-biobj-mixint_f085_i06_d160 1.0",
  "bbob-biobj-mixint_f085_i07_d005 1.0",
  "bbob-biobj-mixint_f085_i07_d010 1.0",
  "bbob-biobj-mixint_f085_i07_d020 1.0",
  "bbob-biobj-mixint_f085_i07_d040 1.0",
  "bbob-biobj-mixint_f085_i07_d080 1.0",
  "bbob-biobj-mixint_f085_i07_d160 1.0",
  "bbob-biobj-mixint_f085_i08_d005 1.0",
  "bbob-biobj-mixint_f085_i08_d010 1.0",
  "bbob-biobj-mixint_f085_i08_d020 1.0",
  "bbob-biobj-mixint_f085_i08_d040 1.0",
  "bbob-biobj-mixint_f085_i08_d080 1.0",
  "bbob-biobj-mixint_f085_i08_d160 1.0",
  "bbob-biobj-mixint_f085_i09_d005 1.0",
  "bbob-biobj-mixint_f085_i09_d010 1.0",
  "bbob-biobj-mixint_f085_i09_d020 1.0",
  "bbob-biobj-mixint_f085_i09_d040 1.0",
  "bbob-biobj-mixint_f085_i09_d080 1.0",
  "bbob-biobj-mixint_f085_i09_d160 1.0",
  "bbob-biobj-mixint_f085_i10_d005 1.0",
  "bbob-biobj-mixint_f085_i10_d010 1.0",
  "bbob-biobj-mixint_f085_i10_d020 1.0",
  "bbob-biobj-mixint_f085_i10_d040 1.0",
  "bbob-biobj-mixint_f085_i10_d080 1.0",
  "bbob-biobj-mixint_f085_i10_d160 1.0",
  "bbob-biobj-mixint_f085_i11_d005 1.0",
  "bbob-biobj-mixint_f085_i11_d010 1.0",
  "bbob-biobj-mixint_f085_i11_d020 1.0",
  "bbob-biobj-mixint_f085_i11_d040 1.0",
  "bbob-biobj-mixint_f085_i11_d080 1.0",
  "bbob-biobj-mixint_f085_i11_d160 1.0",
  "bbob-biobj-mixint_f085_i12_d005 1.0",
  "bbob-biobj-mixint_f085_i12_d010 1.0",
  "bbob-biobj-mixint_f085_i12_d020 1.0",
  "bbob-biobj-mixint_f085_i12_d040 1.0",
  "bbob-biobj-mixint_f085_i12_d080 1.0",
  "bbob-biobj-mixint_f085_i12_d160 1.0",
  "bbob-biobj-mixint_f085_i13_d005 1.0",
  "bbob-biobj-mixint_f085_i13_d010 1.0",
  "bbob-biobj-mixint_f085_i13_d020 1.0",
  "bbob-biobj-mixint_f085_i13_d040 1.0",
  "bbob-biobj-mixint_f085_i13_d080 1.0",
  "bbob-biobj-mixint_f085_i13_d160 1.0",
  "bbob-biobj-mixint_f085_i14_d005 1.0",
  "bbob-biobj-mixint_f085_i14_d010 1.0",
  "bbob-biobj-mixint_f085_i14_d020 1.0",
  "bbob-biobj-mixint_f085_i14_d040 1.0",
  "bbob-biobj-mixint_f085_i14_d080 1.0",
  "bbob-biobj-mixint_f085_i14_d160 1.0",
  "bbob-biobj-mixint_f085_i15_d005 1.0",
  "bbob-biobj-mixint_f085_i15_d010 1.0",
  "bbob-biobj-mixint_f085_i15_d020 1.0",
  "bbob-biobj-mixint_f085_i15_d040 1.0",
  "bbob-biobj-mixint_f085_i15_d080 1.0",
  "bbob-biobj-mixint_f085_i15_d160 1.0",
  "bbob-biobj-mixint_f086_i01_d005 1.0",
  "bbob-biobj-mixint_f086_i01_d010 1.0",
  "bbob-biobj-mixint_f086_i01_d020 1.0",
  "bbob-biobj-mixint_f086_i01_d040 1.0",
  "bbob-biobj-mixint_f086_i01_d080 1.0",
  "bbob-biobj-mixint_f086_i01_d160 1.0",
  "bbob-biobj-mixint_f086_i02_d005 1.0",
  "bbob-biobj-mixint_f086_i02_d010 1.0",
  "bbob-biobj-mixint_f086_i02_d020 1.0",
  "bbob-biobj-mixint_f086_i02_d040 1.0",
  "bbob-biobj-mixint_f086_i02_d080 1.0",
  "bbob-biobj-mixint_f086_i02_d160 1.0",
  "bbob-biobj-mixint_f086_i03_d005 1.0",
  "bbob-biobj-mixint_f086_i03_d010 1.0",
  "bbob-biobj-mixint_f086_i03_d020 1.0",
  "bbob-biobj-mixint_f086_i03_d040 1.0",
  "bbob-biobj-mixint_f086_i03_d080 1.0",
  "bbob-biobj-mixint_f086_i03_d160 1.0",
  "bbob-biobj-mixint_f086_i04_d005 1.0",
  "bbob-biobj-mixint_f086_i04_d010 1.0",
  "bbob-biobj-mixint_f086_i04_d020 1.0",
  "bbob-biobj-mixint_f086_i04_d040 1.0",
  "bbob-biobj-mixint_f086_i04_d080 1.0",
  "bbob-biobj-mixint_f086_i04_d160 1.0",
  "bbob-biobj-mixint_f086_i05_d005 1.0",
  "bbob-biobj-mixint_f086_i05_d010 1.0",
  "bbob-biobj-mixint_f086_i05_d020 1.0",
  "bbob-biobj-mixint_f086_i05_d040 1.0",
  "bbob-biobj-mixint_f086_i05_d080 1.0",
  "bbob-biobj-mixint_f086_i05_d160 1.0",
  "bbob-biobj-mixint_f086_i06_d005 1.0",
  "bbob-biobj-mixint_f086_i06_d010 1.0",
  "bbob-biobj-mixint_f086_i06_d020 1.0",
  "bbob-biobj-mixint_f086_i06_d040 1.0",
  "bbob-biobj-mixint_f086_i06_d080 1.0",
  "bbob-biobj-mixint_f086_i06_d160 1.0",
  "bbob-biobj-mixint_f086_i07_d005 1.0",
  "bbob-biobj-mixint_f086_i07_d010 1.0",
  "bbob-biobj-mixint_f086_i07_d020 1.0",
  "bbob-biobj-mixint_f086_i07_d040 1.0",
  "bbob-biobj-mixint_f086_i07_d080 1.0",
  "bbob-biobj-mixint_f086_i07_d160 1.0",
  "bbob-biobj-mixint_f086_i08_d005 1.0",
  "bbob-biobj-mixint_f086_i08_d010 1.0",
  "bbob-biobj-mixint_f086_i08_d020 1.0",
  "bbob-biobj-mixint_f086_i08_d040 1.0",
  "bbob-biobj-mixint_f086_i08_d080 1.0",
  "bbob-biobj-mixint_f086_i08_d160 1.0",
  "bbob-biobj-mixint_f086_i09_d005 1.0",
  "bbob-biobj-mixint_f086_i09_d010 1.0",
  "bbob-biobj-mixint_f086_i09_d020 1.0",
  "bbob-biobj-mixint_f086_i09_d040 1.0",
  "bbob-biobj-mixint_f086_i09_d080 1.0",
  "bbob-biobj-mixint_f086_i09_d160 1.0",
  "bbob-biobj-mixint_f086_i10_d005 1.0",
  "bbob-biobj-mixint_f086_i10_d010 1.0",
  "bbob-biobj-mixint_f086_i10_d020 1.0",
  "bbob-biobj-mixint_f086_i10_d040 1.0",
  "bbob-biobj-mixint_f086_i10_d080 1.0",
  "bbob-biobj-mixint_f086_i10_d160 1.0",
  "bbob-biobj-mixint_f086_i11_d005 1.0",
  "bbob-biobj-mixint_f086_i11_d010 1.0",
  "bbob-biobj-mixint_f086_i11_d020 1.0",
  "bbob-biobj-mixint_f086_i11_d040 1.0",
  "bbob-biobj-mixint_f086_i11_d080 1.0",
  "bbob-biobj-mixint_f086_i11_d160 1.0",
  "bbob-biobj-mixint_f086_i12_d005 1.0",
  "bbob-biobj-mixint_f086_i12_d010 1.0",
  "bbob-biobj-mixint_f086_i12_d020 1.0",
  "bbob-biobj-mixint_f086_i12_d040 1.0",
  "bbob-biobj-mixint_f086_i12_d080 1.0",
  "bbob-biobj-mixint_f086_i12_d160 1.0",
  "bbob-biobj-mixint_f086_i13_d005 1.0",
  "bbob-biobj-mixint_f086_i13_d010 1.0",
  "bbob-biobj-mixint_f086_i13_d020 1.0",
  "bbob-biobj-mixint_f086_i13_d040 1.0",
  "bbob-biobj-mixint_f086_i13_d080 1.0",
  "bbob-biobj-mixint_f086_i13_d160 1.0",
  "bbob-biobj-mixint_f086_i14_d005 1.0",
  "bbob-biobj-mixint_f086_i14_d010 1.0",
  "bbob-biobj-mixint_f086_i14_d020 1.0",
  "bbob-biobj-mixint_f086_i14_d040 1.0",
  "bbob-biobj-mixint_f086_i14_d080 1.0",
  "bbob-biobj-mixint_f086_i14_d160 1.0",
  "bbob-biobj-mixint_f086_i15_d005 1.0",
  "bbob-biobj-mixint_f086_i15_d010 1.0",
  "bbob-biobj-mixint_f086_i15_d020 1.0",
  "bbob-biobj-mixint_f086_i15_d040 1.0",
  "bbob-biobj-mixint_f086_i15_d080 1.0",
  "bbob-biobj-mixint_f086_i15_d160 1.0",
  "bbob-biobj-mixint_f087_i01_d005 1.0",
  "bbob-biobj-mixint_f087_i01_d010 1.0",
  "bbob-biobj-mixint_f087_i01_d020 1.0",
  "bbob-biobj-mixint_f087_i01_d040 1.0",
  "bbob-biobj-mixint_f087_i01_d080 1.0",
  "bbob-biobj-mixint_f087_i01_d160 1.0",
  "bbob-biobj-mixint_f087_i02_d005 1.0",
  "bbob-biobj-mixint_f087_i02_d010 1.0",
  "bbob-biobj-mixint_f087_i02_d020 1.0",
  "bbob-biobj-mixint_f087_i02_d040 1.0",
  "bbob-biobj-mixint_f087_i02_d080 1.0",
  "bbob-biobj-mixint_f087_i02_d160 1.0",
  "bbob-biobj-mixint_f087_i03_d005 1.0",
  "bbob-biobj-mixint_f087_i03_d010 1.0",
  "bbob-biobj-mixint_f087_i03_d020 1.0",
  "bbob-biobj-mixint_f087_i03_d040 1.0",
  "bbob-biobj-mixint_f087_i03_d080 1.0",
  "bbob-biobj-mixint_f087_i03_d160 1.0",
  "bbob-biobj-mixint_f087_i04_d005 1.0",
  "bbob-biobj-mixint_f087_i04_d010 1.0",
  "bbob-biobj-mixint_f087_i04_d020 1.0",
  "bbob-biobj-mixint_f087_i04_d040 1.0",
  "bbob-biobj-mixint_f087_i04_d080 1.0",
  "bbob-biobj-mixint_f087_i04_d160 1.0",
  "bbob-biobj-mixint_f087_i05_d005 1.0",
  "bbob-biobj-mixint_f087_i05_d010 1.0",
  "bbob-biobj-mixint_f087_i05_d020 1.0",
  "bbob-biobj-mixint_f087_i05_d040 1.0",
  "bbob-biobj-mixint_f087_i05_d080 1.0",
  "bbob-biobj-mixint_f087_i05_d160 1.0",
  "bbob-biobj-mixint_f087_i06_d005 1.0",
  "bbob-biobj-mixint_f087_i06_d010 1.0",
  "bbob-biobj-mixint_f087_i06_d020 1.0",
  "bbob-biobj-mixint_f087_i06_d040 1.0",
  "bbob-biobj-mixint_f087_i06_d080 1.0",
  "bbob-biobj-mixint_f087_i06_d160 1.0",
  "bbob-biobj-mixint_f087_i07_d005 1.0",
  "bbob-biobj-mixint_f087_i07_d010 1.0",
  "bbob-biobj-mixint_f087_i07_d020 1.0",
  "bbob-biobj-mixint_f087_i07_d040 1.0",
  "bbob-biobj-mixint_f087_i07_d080 1.0",
  "bbob-biobj-mixint_f087_i07_d160 1.0",
  "bbob-biobj-mixint_f087_i08_d005 1.0",
  "bbob-biobj-mixint_f087_i08_d010 1.0",
  "bbob-biobj-mixint_f087_i08_d020 1.0",
  "bbob-biobj-mixint_f087_i08_d040 1.0",
  "bbob-biobj-mixint_f087_i08_d080 1.0",
  "bbob-biobj-mixint_f087_i08_d160 1.0",
  "bbob-biobj-mixint_f087_i09_d005 1.0",
  "bbob-biobj-mixint_f087_i09_d010 1.0",
  "bbob-biobj-mixint_f087_i09_d020 1.0",
  "bbob-biobj-mixint_f087_i09_d040 1.0",
  "bbob-biobj-mixint_f087_i09_d080 1.0",
  "bbob-biobj-mixint_f087_i09_d160 1.0",
  "bbob-biobj-mixint_f087_i10_d005 1.0",
  "bbob-biobj-mixint_f087_i10_d010 1.0",
  "bbob-biobj-mixint_f087_i10_d020 1.0",
  "bbob-biobj-mixint_f087_i10_d040 1.0",
  "bbob-biobj-mixint_f087_i10_d080 1.0",
  "bbob-biobj-mixint_f087_i10_d160 1.0",
  "bbob-biobj-mixint_f087_i11_d005 1.0",
  "bbob-biobj-mixint_f087_i11_d010 1.0",
  "bbob-biobj-mixint_f087_i11_d020 1.0",
  "bbob-biobj-mixint_f087_i11_d040 1.0",
  "bbob-biobj-mixint_f087_i11_d080 1.0",
  "bbob-biobj-mixint_f087_i11_d160 1.0",
  "bbob-biobj-mixint_f087_i12_d005 1.0",
  "bbob-biobj-mixint_f087_i12_d010 1.0",
  "bbob-biobj-mixint_f087_i12_d020 1.0",
  "bbob-biobj-mixint_f087_i12_d040 1.0",
  "bbob-biobj-mixint_f087_i12_d080 1.0",
  "bbob-biobj-mixint_f087_i12_d160 1.0",
  "bbob-biobj-mixint_f087_i13_d005 1.0",
  "bbob-biobj-mixint_f087_i13_d010 1.0",
  "bbob-biobj-mixint_f087_i13_d020 1.0",
  "bbob-biobj-mixint_f087_i13_d040 1.0",
  "bbob-biobj-mixint_f087_i13_d080 1.0",
  "bbob-biobj-mixint_f087_i13_d160 1.0",
  "bbob-biobj-mixint_f087_i14_d005 1.0",
  "bbob-biobj-mixint_f087_i14_d010 1.0",
  "bbob-biobj-mixint_f087_i14_d020 1.0",
  "bbob-biobj-mixint_f087_i14_d040 1.0",
  "bbob-biobj-mixint_f087_i14_d080 1.0",
  "bbob-biobj-mixint_f087_i14_d160 1.0",
  "bbob-biobj-mixint_f087_i15_d005 1.0",
  "bbob-biobj-mixint_f087_i15_d010 1.0",
  "bbob-biobj-mixint_f087_i15_d020 1.0",
  "bbob-biobj-mixint_f087_i15_d040 1.0",
  "bbob-biobj-mixint_f087_i15_d080 1.0",
  "bbob-biobj-mixint_f087_i15_d160 1.0",
  "bbob-biobj-mixint_f088_i01_d005 1.0",
  "bbob-biobj-mixint_f088_i01_d010 1.0",
  "bbob-biobj-mixint_f088_i01_d020 1.0",
  "bbob-biobj-mixint_f088_i01_d040 1.0",
  "bbob-biobj-mixint_f088_i01_d080 1.0",
  "bbob-biobj-mixint_f088_i01_d160 1.0",
  "bbob-biobj-mixint_f088_i02_d005 1.0",
  "bbob-biobj-mixint_f088_i02_d010 1.0",
  "bbob-biobj-mixint_f088_i02_d020 1.0",
  "bbob-biobj-mixint_f088_i02_d040 1.0",
  "bbob-biobj-mixint_f088_i02_d080 1.0",
  "bbob-biobj-mixint_f088_i02_d160 1.0",
  "bbob-biobj-mixint_f088_i03_d005 1.0",
  "bbob-biobj-mixint_f088_i03_d010 1.0",
  "bbob-biobj-mixint_f088_i03_d020 1.0",
  "bbob-biobj-mixint_f088_i03_d040 1.0",
  "bbob-biobj-mixint_f088_i03_d080 1.0",
  "bbob-biobj-mixint_f088_i03_d160 1.0",
  "bbob-biobj-mixint_f088_i04_d005 1.0",
  "bbob-biobj-mixint_f088_i04_d010 1.0",
  "bbob-biobj-mixint_f088_i04_d020 1.0",
  "bbob-biobj-mixint_f088_i04_d040 1.0",
  "bbob-biobj-mixint_f088_i04_d080 1.0",
  "bbob-biobj-mixint_f088_i04_d160 1.0",
  "bbob-biobj-mixint_f088_i05_d005 1.0",
  "bbob-biobj-mixint_f088_i05_d010 1.0",
  "bbob-biobj-mixint_f088_i05_d020 1.0",
  "bbob-biobj-mixint_f088_i05_d040 1.0",
  "bbob-biobj-mixint_f088_i05_d080 1.0",
  "bbob-biobj-mixint_f088_i05_d160 1.0",
  "bbob-biobj-mixint_f088_i06_d005 1.0",
  "bbob-biobj-mixint_f088_i06_d010 1.0",
  "bbob-biobj-mixint_f088_i06_d020 1.0",
  "bbob-biobj-mixint_f088_i06_d040 1.0",
  "bbob-biobj-mixint_f088_i06_d080 1.0",
  "bbob-biobj-mixint_f088_i06_d160 1.0",
  "bbob-biobj-mixint_f088_i07_d005 1.0",
  "bbob-biobj-mixint_f088_i07_d010 1.0",
  "bbob-biobj-mixint_f088_i07_d020 1.0",
  "bbob-biobj-mixint_f088_i07_d040 1.0",
  "bbob-biobj-mixint_f088_i07_d080 1.0",
  "bbob-biobj-mixint_f088_i07_d160 1.0",
  "bbob-biobj-mixint_f088_i08_d005 1.0",
  "bbob-biobj-mixint_f088_i08_d010 1.0",
  "bbob-biobj-mixint_f088_i08_d020 1.0",
  "bbob-biobj-mixint_f088_i08_d040 1.0",
  "bbob-biobj-mixint_f088_i08_d080 1.0",
  "bbob-biobj-mixint_f088_i08_d160 1.0",
  "bbob-biobj-mixint_f088_i09_d005 1.0",
  "bbob-biobj-mixint_f088_i09_d010 1.0",
  "bbob-biobj-mixint_f088_i09_d020 1.0",
  "bbob-biobj-mixint_f088_i09_d040 1.0",
  "bbob-biobj-mixint_f088_i09_d080 1.0",
  "bbob-biobj-mixint_f088_i09_d160 1.0",
  "bbob-biobj-mixint_f088_i10_d005 1.0",
  "bbob-biobj-mixint_f088_i10_d010 1.0",
  "bbob-biobj-mixint_f088_i10_d020 1.0",
  "bbob-biobj-mixint_f088_i10_d040 1.0",
  "bbob-biobj-mixint_f088_i10_d080 1.0",
  "bbob-biobj-mixint_f088_i10_d160 1.0",
  "bbob-biobj-mixint_f088_i11_d005 1.0",
  "bbob-biobj-mixint_f088_i11_d010 1.0",
  "bbob-biobj-mixint_f088_i11_d020 1.0",
  "bbob-biobj-mixint_f088_i11_d040 1.0",
  "bbob-biobj-mixint_f088_i11_d080 1.0",
  "bbob-biobj-mixint_f088_i11_d160 1.0",
  "bbob-biobj-mixint_f088_i12_d005 1.0",
  "bbob-biobj-mixint_f088_i12_d010 1.0",
  "bbob-biobj-mixint_f088_i12_d020 1.0",
  "bbob-biobj-mixint_f088_i12_d040 1.0",
  "bbob-biobj-mixint_f088_i12_d080 1.0",
  "bbob-biobj-mixint_f088_i12_d160 1.0",
  "bbob-biobj-mixint_f088_i13_d005 1.0",
  "bbob-biobj-mixint_f088_i13_d010 1.0",
  "bbob-biobj-mixint_f088_i13_d020 1.0",
  "bbob-biobj-mixint_f088_i13_d040 1.0",
  "bbob-biobj-mixint_f088_i13_d080 1.0",
  "bbob-biobj-mixint_f088_i13_d160 1.0",
  "bbob-biobj-mixint_f088_i14_d005 1.0",
  "bbob-biobj-mixint_f088_i14_d010 1.0",
  "bbob-biobj-mixint_f088_i14_d020 1.0",
  "bbob-biobj-mixint_f088_i14_d040 1.0",
  "bbob-biobj-mixint_f088_i14_d080 1.0",
  "bbob-biobj-mixint_f088_i14_d160 1.0",
  "bbob-biobj-mixint_f088_i15_d005 1.0",
  "bbob-biobj-mixint_f088_i15_d010 1.0",
  "bbob-biobj-mixint_f088_i15_d020 1.0",
  "bbob-biobj-mixint_f088_i15_d040 1.0",
  "bbob-biobj-mixint_f088_i15_d080 1.0",
  "bbob-biobj-mixint_f088_i15_d160 1.0",
  "bbob-biobj-mixint_f089_i01_d005 1.0",
  "bbob-biobj-mixint_f089_i01_d010 1.0",
  "bbob-biobj-mixint_f089_i01_d020 1.0",
  "bbob-biobj-mixint_f089_i01_d040 1.0",
  "bbob-biobj-mixint_f089_i01_d080 1.0",
  "bbob-biobj-mixint_f089_i01_d160 1.0",
  "bbob-biobj-mixint_f089_i02_d005 1.0",
  "bbob-biobj-mixint_f089_i02_d010 1.0",
  "bbob-biobj-mixint_f089_i02_d020 1.0",
  "bbob-biobj-mixint_f089_i02_d040 1.0",
  "bbob-biobj-mixint_f089_i02_d080 1.0",
  "bbob-biobj-mixint_f089_i02_d160 1.0",
  "bbob-biobj-mixint_f089_i03_d005 1.0",
  "bbob-biobj-mixint_f089_i03_d010 1.0",
  "bbob-biobj-mixint_f089_i03_d020 1.0",
  "bbob-biobj-mixint_f089_i03_d040 1.0",
  "bbob-biobj-mixint_f089_i03_d080 1.0",
  "bbob-biobj-mixint_f089_i03_d160 1.0",
  "bbob-biobj-mixint_f089_i04_d005 1.0",
  "bbob-biobj-mixint_f089_i04_d010 1.0",
  "bbob-biobj-mixint_f089_i04_d020 1.0",
  "bbob-biobj-mixint_f089_i04_d040 1.0",
  "bbob-biobj-mixint_f089_i04_d080 1.0",
  "bbob-biobj-mixint_f089_i04_d160 1.0",
  "bbob-biobj-mixint_f089_i05_d005 1.0",
  "bbob-biobj-mixint_f089_i05_d010 1.0",
  "bbob-biobj-mixint_f089_i05_d020 1.0",
  "bbob-biobj-mixint_f089_i05_d040 1.0",
  "bbob-biobj-mixint_f089_i05_d080 1.0",
  "bbob-biobj-mixint_f089_i05_d160 1.0",
  "bbob-biobj-mixint_f089_i06_d005 1.0",
  "bbob-biobj-mixint_f089_i06_d010 1.0",
  "bbob-biobj-mixint_f089_i06_d020 1.0",
  "bbob-biobj-mixint_f089_i06_d040 1.0",
  "bbob-biobj-mixint_f089_i06_d080 1.0",
  "bbob-biobj-mixint_f089_i06_d160 1.0",
  "bbob-biobj-mixint_f089_i07_d005 1.0",
  "bbob-biobj-mixint_f089_i07_d010 1.0",
  "bbob-biobj-mixint_f089_i07_d020 1.0",
  "bbob-biobj-mixint_f089_i07_d040 1.0",
  "bbob-biobj-mixint_f089_i07_d080 1.0",
  "bbob-biobj-mixint_f089_i07_d160 1.0",
  "bbob-biobj-mixint_f089_i08_d005 1.0",
  "bbob-biobj-mixint_f089_i08_d010 1.0",
  "bbob-biobj-mixint_f089_i08_d020 1.0",
  "bbob-biobj-mixint_f089_i08_d040 1.0",
  "bbob-biobj-mixint_f089_i08_d080 1.0",
  "bbob-biobj-mixint_f089_i08_d160 1.0",
  "bbob-biobj-mixint_f089_i09_d005 1.0",
  "bbob-biobj-mixint_f089_i09_d010 1.0",
  "bbob-biobj-mixint_f089_i09_d020 1.0",
  "bbob-biobj-mixint_f089_i09_d040 1.0",
  "bbob-biobj-mixint_f089_i09_d080 1.0",
  "bbob-biobj-mixint_f089_i09_d160 1.0",
  "bbob-biobj-mixint_f089_i10_d005 1.0",
  "bbob-biobj-mixint_f089_i10_d010 1.0",
  "bbob-biobj-mixint_f089_i10_d020 1.0",
  "bbob-biobj-mixint_f089_i10_d040 1.0",
  "bbob-biobj-mixint_f089_i10_d080 1.0",
  "bbob-biobj-mixint_f089_i10_d160 1.0",
  "bbob-biobj-mixint_f089_i11_d005 1.0",
  "bbob-biobj-mixint_f089_i11_d010 1.0",
  "bbob-biobj-mixint_f089_i11_d020 1.0",
  "bbob-biobj-mixint_f089_i11_d040 1.0",
  "bbob-biobj-mixint_f089_i11_d080 1.0",
  "bbob-biobj-mixint_f089_i11_d160 1.0",
  "bbob-biobj-mixint_f089_i12_d005 1.0",
  "bbob-biobj-mixint_f089_i12_d010 1.0",
  "bbob-biobj-mixint_f089_i12_d020 1.0",
  "bbob-biobj-mixint_f089_i12_d040 1.0",
  "bbob-biobj-mixint_f089_i12_d080 1.0",
  "bbob-biobj-mixint_f089_i12_d160 1.0",
  "bbob-biobj-mixint_f089_i13_d005 1.0",
  "bbob-biobj-mixint_f089_i13_d010 1.0",
  "bbob-biobj-mixint_f089_i13_d020 1.0",
  "bbob-biobj-mixint_f089_i13_d040 1.0",
  "bbob-biobj-mixint_f089_i13_d080 1.0",
  "bbob-biobj-mixint_f089_i13_d160 1.0",
  "bbob-biobj-mixint_f089_i14_d005 1.0",
  "bbob-biobj-mixint_f089_i14_d010 1.0",
  "bbob-biobj-mixint_f089_i14_d020 1.0",
  "bbob-biobj-mixint_f089_i14_d040 1.0",
  "bbob-biobj-mixint_f089_i14_d080 1.0",
  "bbob-biobj-mixint_f089_i14_d160 1.0",
  "bbob-biobj-mixint_f089_i15_d005 1.0",
  "bbob-biobj-mixint_f089_i15_d010 1.0",
  "bbob-biobj-mixint_f089_i15_d020 1.0",
  "bbob-biobj-mixint_f089_i15_d040 1.0",
  "bbob-biobj-mixint_f089_i15_d080 1.0",
  "bbob-biobj-mixint_f089_i15_d160 1.0",
  "bbob-biobj-mixint_f090_i01_d005 1.0",
  "bbob-biobj-mixint_f090_i01_d010 1.0",
  "bbob-biobj-mixint_f090_i01_d020 1.0",
  "bbob-biobj-mixint_f090_i01_d040 1.0",
  "bbob-biobj-mixint_f090_i01_d080 1.0",
  "bbob-biobj-mixint_f090_i01_d160 1.0",
  "bbob-biobj-mixint_f090_i02_d005 1.0",
  "bbob-biobj-mixint_f090_i02_d010 1.0",
  "bbob-biobj-mixint_f090_i02_d020 1.0",
  "bbob-biobj-mixint_f090_i02_d040 1.0",
  "bbob-biobj-mixint_f090_i02_d080 1.0",
  "bbob-biobj-mixint_f090_i02_d160 1.0",
  "bbob-biobj-mixint_f090_i03_d005 1.0",
  "bbob-biobj-mixint_f090_i03_d010 1.0",
  "bbob-biobj-mixint_f090_i03_d020 1.0",
  "bbob-biobj-mixint_f090_i03_d040 1.0",
  "bbob-biobj-mixint_f090_i03_d080 1.0",
  "bbob-biobj-mixint_f090_i03_d160 1.0",
  "bbob-biobj-mixint_f090_i04_d005 1.0",
  "bbob-biobj-mixint_f090_i04_d010 1.0",
  "bbob-biobj-mixint_f090_i04_d020 1.0",
  "bbob-biobj-mixint_f090_i04_d040 1.0",
  "bbob-biobj-mixint_f090_i04_d080 1.0",
  "bbob-biobj-mixint_f090_i04_d160 1.0",
  "bbob-biobj-mixint_f090_i05_d005 1.0",
  "bbob-biobj-mixint_f090_i05_d010 1.0",
  "bbob-biobj-mixint_f090_i05_d020 1.0",
  "bbob-biobj-mixint_f090_i05_d040 1.0",
  "bbob-biobj-mixint_f090_i05_d080 1.0",
  "bbob-biobj-mixint_f090_i05_d160 1.0",
  "bbob-biobj-mixint_f090_i06_d005 1.0",
  "bbob-biobj-mixint_f090_i06_d010 1.0",
  "bbob-biobj-mixint_f090_i06_d020 1.0",
  "bbob-biobj-mixint_f090_i06_d040 1.0",
  "bbob-biobj-mixint_f090_i06_d080 1.0",
  "bbob-biobj-mixint_f090_i06_d160 1.0",
  "bbob-biobj-mixint_f090_i07_d005 1.0",
  "bbob-biobj-mixint_f090_i07_d010 1.0",
  "bbob-biobj-mixint_f090_i07_d020 1.0",
  "bbob-biobj-mixint_f090_i07_d040 1.0",
  "bbob-biobj-mixint_f090_i07_d080 1.0",
  "bbob-biobj-mixint_f090_i07_d160 1.0",
  "bbob-biobj-mixint_f090_i08_d005 1.0",
  "bbob-biobj-mixint_f090_i08_d010 1.0",
  "bbob-biobj-mixint_f090_i08_d020 1.0",
  "bbob-biobj-mixint_f090_i08_d040 1.0",
  "bbob-biobj-mixint_f090_i08_d080 1.0",
  "bbob-biobj-mixint_f090_i08_d160 1.0",
  "bbob-biobj-mixint_f090_i09_d005 1.0",
  "bbob-biobj-mixint_f090_i09_d010 1.0",
  "bbob-biobj-mixint_f090_i09_d020 1.0",
  "bbob-biobj-mixint_f090_i09_d040 1.0",
  "bbob-biobj-mixint_f090_i09_d080 1.0",
  "bbob-biobj-mixint_f090_i09_d160 1.0",
  "bbob-biobj-mixint_f090_i10_d005 1.0",
  "bbob-biobj-mixint_f090_i10_d010 1.0",
  "bbob-biobj-mixint_f090_i10_d020 1.0",
  "bbob-biobj-mixint_f090_i10_d040 1.0",
  "bbob-biobj-mixint_f090_i10_d080 1.0",
  "bbob-biobj-mixint_f090_i10_d160 1.0",
  "bbob-biobj-mixint_f090_i11_d005 1.0",
  "bbob-biobj-mixint_f090_i11_d010 1.0",
  "bbob-biobj-mixint_f090_i11_d020 1.0",
  "bbob-biobj-mixint_f090_i11_d040 1.0",
  "bbob-biobj-mixint_f090_i11_d080 1.0",
  "bbob-biobj-mixint_f090_i11_d160 1.0",
  "bbob-biobj-mixint_f090_i12_d005 1.0",
  "bbob-biobj-mixint_f090_i12_d010 1.0",
  "bbob-biobj-mixint_f090_i12_d020 1.0",
  "bbob-biobj-mixint_f090_i12_d040 1.0",
  "bbob-biobj-mixint_f090_i12_d080 1.0",
  "bbob-biobj-mixint_f090_i12_d160 1.0",
  "bbob-biobj-mixint_f090_i13_d005 1.0",
  "bbob-biobj-mixint_f090_i13_d010 1.0",
  "bbob-biobj-mixint_f090_i13_d020 1.0",
  "bbob-biobj-mixint_f090_i13_d040 1.0",
  "bbob-biobj-mixint_f090_i13_d080 1.0",
  "bbob-biobj-mixint_f090_i13_d160 1.0",
  "bbob-biobj-mixint_f090_i14_d005 1.0",
  "bbob-biobj-mixint_f090_i14_d010 1.0",
  "bbob-biobj-mixint_f090_i14_d020 1.0",
  "bbob-biobj-mixint_f090_i14_d040 1.0",
  "bbob-biobj-mixint_f090_i14_d080 1.0",
  "bbob-biobj-mixint_f090_i14_d160 1.0",
  "bbob-biobj-mixint_f090_i15_d005 1.0",
  "bbob-biobj-mixint_f090_i15_d010 1.0",
  "bbob-biobj-mixint_f090_i15_d020 1.0",
  "bbob-biobj-mixint_f090_i15_d040 1.0",
  "bbob-biobj-mixint_f090_i15_d080 1.0",
  "bbob-biobj-mixint_f090_i15_d160 1.0",
  "bbob-biobj-mixint_f091_i01_d005 1.0",
  "bbob-biobj-mixint_f091_i01_d010 1.0",
  "bbob-biobj-mixint_f091_i01_d020 1.0",
  "bbob-biobj-mixint_f091_i01_d040 1.0",
  "bbob-biobj-mixint_f091_i01_d080 1.0",
  "bbob-biobj-mixint_f091_i01_d160 1.0",
  "bbob-biobj-mixint_f091_i02_d005 1.0",
  "bbob-biobj-mixint_f091_i02_d010 1.0",
  "bbob-biobj-mixint_f091_i02_d020 1.0",
  "bbob-biobj-mixint_f091_i02_d040 1.0",
  "bbob-biobj-mixint_f091_i02_d080 1.0",
  "bbob-biobj-mixint_f091_i02_d160 1.0",
  "bbob-biobj-mixint_f091_i03_d005 1.0",
  "bbob-biobj-mixint_f091_i03_d010 1.0",
  "bbob-biobj-mixint_f091_i03_d020 1.0",
  "bbob-biobj-mixint_f091_i03_d040 1.0",
  "bbob-biobj-mixint_f091_i03_d080 1.0",
  "bbob-biobj-mixint_f091_i03_d160 1.0",
  "bbob-biobj-mixint_f091_i04_d005 1.0",
  "bbob-biobj-mixint_f091_i04_d010 1.0",
  "bbob-biobj-mixint_f091_i04_d020 1.0",
  "bbob-biobj-mixint_f091_i04_d040 1.0",
  "bbob-biobj-mixint_f091_i04_d080 1.0",
  "bbob-biobj-mixint_f091_i04_d160 1.0",
  "bbob-biobj-mixint_f091_i05_d005 1.0",
  "bbob-biobj-mixint_f091_i05_d010 1.0",
  "bbob-biobj-mixint_f091_i05_d020 1.0",
  "bbob-biobj-mixint_f091_i05_d040 1.0",
  "bbob-biobj-mixint_f091_i05_d080 1.0",
  "bbob-biobj-mixint_f091_i05_d160 1.0",
  "bbob-biobj-mixint_f091_i06_d005 1.0",
  "bbob-biobj-mixint_f091_i06_d010 1.0",
  "bbob-biobj-mixint_f091_i06_d020 1.0",
  "bbob-biobj-mixint_f091_i06_d040 1.0",
  "bbob-biobj-mixint_f091_i06_d080 1.0",
  "bbob-biobj-mixint_f091_i06_d160 1.0",
  "bbob-biobj-mixint_f091_i07_d005 1.0",
  "bbob-biobj-mixint_f091_i07_d010 1.0",
  "bbob-biobj-mixint_f091_i07_d020 1.0",
  "bbob-biobj-mixint_f091_i07_d040 1.0",
  "bbob-biobj-mixint_f091_i07_d080 1.0",
  "bbob-biobj-mixint_f091_i07_d160 1.0",
  "bbob-biobj-mixint_f091_i08_d005 1.0",
  "bbob-biobj-mixint_f091_i08_d010 1.0",
  "bbob-biobj-mixint_f091_i08_d020 1.0",
  "bbob-biobj-mixint_f091_i08_d040 1.0",
  "bbob-biobj-mixint_f091_i08_d080 1.0",
  "bbob-biobj-mixint_f091_i08_d160 1.0",
  "bbob-biobj-mixint_f091_i09_d005 1.0",
  "bbob-biobj-mixint_f091_i09_d010 1.0",
  "bbob-biobj-mixint_f091_i09_d020 1.0",
  "bbob-biobj-mixint_f091_i09_d040 1.0",
  "bbob-biobj-mixint_f091_i09_d080 1.0",
  "bbob-biobj-mixint_f091_i09_d160 1.0",
  "bbob-biobj-mixint_f091_i10_d005 1.0",
  "bbob-biobj-mixint_f091_i10_d010 1.0",
  "bbob-biobj-mixint_f091_i10_d020 1.0",
  "bbob-biobj-mixint_f091_i10_d040 1.0",
  "bbob-biobj-mixint_f091_i10_d080 1.0",
  "bbob-biobj-mixint_f091_i10_d160 1.0",
  "bbob-biobj-mixint_f091_i11_d005 1.0",
  "bbob-biobj-mixint_f091_i11_d010 1.0",
  "bbob-biobj-mixint_f091_i11_d020 1.0",
  "bbob-biobj-mixint_f091_i11_d040 1.0",
  "bbob-biobj-mixint_f091_i11_d080 1.0",
  "bbob-biobj-mixint_f091_i11_d160 1.0",
  "bbob-biobj-mixint_f091_i12_d005 1.0",
  "bbob-biobj-mixint_f091_i12_d010 1.0",
  "bbob-biobj-mixint_f091_i12_d020 1.0",
  "bbob-biobj-mixint_f091_i12_d040 1.0",
  "bbob-biobj-mixint_f091_i12_d080 1.0",
  "bbob-biobj-mixint_f091_i12_d160 1.0",
  "bbob-biobj-mixint_f091_i13_d005 1.0",
  "bbob-biobj-mixint_f091_i13_d010 1.0",
  "bbob-biobj-mixint_f091_i13_d020 1.0",
  "bbob-biobj-mixint_f091_i13_d040 1.0",
  "bbob-biobj-mixint_f091_i13_d080 1.0",
  "bbob-biobj-mixint_f091_i13_d160 1.0",
  "bbob-biobj-mixint_f091_i14_d005 1.0",
  "bbob-biobj-mixint_f091_i14_d010 1.0",
  "bbob-biobj-mixint_f091_i14_d020 1.0",
  "bbob-biobj-mixint_f091_i14_d040 1.0",
  "bbob-biobj-mixint_f091_i14_d080 1.0",
  "bbob-biobj-mixint_f091_i14_d160 1.0",
  "bbob-biobj-mixint_f091_i15_d005 1.0",
  "bbob-biobj-mixint_f091_i15_d010 1.0",
  "bbob-biobj-mixint_f091_i15_d020 1.0",
  "bbob-biobj-mixint_f091_i15_d040 1.0",
  "bbob-biobj-mixint_f091_i15_d080 1.0",
  "bbob-biobj-mixint_f091_i15_d160 1.0",
  "bbob-biobj-mixint_f092_i01_d005 1.0",
  "bbob-biobj-mixint_f092_i01_d010 1.0",
  "bbob-biobj-mixint_f092_i01_d020 1.0",
  "bbob-biobj-mixint_f092_i01_d040 1.0",
  "bbob-biobj-mixint_f092_i01_d080 1.0",
  "bbob-biobj-mixint_f092_i01_d160 1.0",
  "bbob-biobj-mixint_f092_i02_d005 1.0",
  "bbob-biobj-mixint_f092_i02_d010 1.0",
  "bbob-biobj-mixint_f092_i02_d020 1.0",
  "bbob-biobj-mixint_f092_i02_d040 1.0",
  "bbob-biobj-mixint_f092_i02_d080 1.0",
  "bbob-biobj-mixint_f092_i02_d160 1.0",
  "bbob-biobj-mixint_f092_i03_d005 1.0",
  "bbob-biobj-mixint_f092_i03_d010 1.0",
  "bbob-biobj-mixint_f092_i03_d020 1.0",
  "bbob-biobj-mixint_f092_i03_d040 1.0",
  "bbob-biobj-mixint_f092_i03_d080 1.0",
  "bbob-biobj-mixint_f092_i03_d160 1.0",
  "bbob-biobj-mixint_f092_i04_d005 1.0",
  "bbob-biobj-mixint_f092_i04_d010 1.0",
  "bbob-biobj-mixint_f092_i04_d020 1.0",
  "bbob-biobj-mixint_f092_i04_d040 1.0",
  "bbob-biobj-mixint_f092_i04_d080 1.0",
  "bbob-biobj-mixint_f092_i04_d160 1.0",
  "bbob-biobj-mixint_f092_i05_d005 1.0",
  "bbob-biobj-mixint_f092_i05_d010 1.0",
  "bbob-biobj-mixint_f092_i05_d020 1.0",
  "bbob-biobj-mixint_f092_i05_d040 1.0",
  "bbob-biobj-mixint_f092_i05_d080 1.0",
  "bbob-biobj-mixint_f092_i05_d160 1.0",
  "bbob-biobj-mixint_f092_i06_d005 1.0",
  "bbob-biobj-mixint_f092_i06_d010 1.0",
  "bbob-biobj-mixint_f092_i06_d020 1.0",
  "bbob-biobj-mixint_f092_i06_d040 1.0",
  "bbob-biobj-mixint_f092_i06_d080 1.0",
  "bbob-biobj-mixint_f092_i06_d160 1.0",
  "bbob-biobj-mixint_f092_i07_d005 1.0",
  "bbob-biobj-mixint_f092_i07_d010 1.0",
  "bbob-biobj-mixint_f092_i07_d020 1.0",
  "bbob-biobj-mixint_f092_i07_d040 1.0",
  "bbob-biobj-mixint_f092_i07_d080 1.0",
  "bbob-biobj-mixint_f092_i07_d160 1.0",
  "bbob-biobj-mixint_f092_i08_d005 1.0",
  "bbob-biobj-mixint_f092_i08_d010 1.0",
  "bbob-biobj-mixint_f092_i08_d020 1.0",
  "bbob-biobj-mixint_f092_i08_d040 1.0",
  "bbob-biobj-mixint_f092_i08_d080 1.0",
  "bbob-biobj-mixint_f092_i08_d160 1.0",
  "bbob-biobj-mixint_f092_i09_d005 1.0",
  "bbob-biobj-mixint_f092_i09_d010 1.0",
  "bbob-biobj-mixint_f092_i09_d020 1.0",
  "bbob-biobj-mixint_f092_i09_d040 1.0",
  "bbob-biobj-mixint_f092_i09_d080 1.0",
  "bbob-biobj-mixint_f092_i09_d160 1.0",
  "bbob-biobj-mixint_f092_i10_d005 1.0",
  "bbob-biobj-mixint_f092_i10_d010 1.0",
  "bbob-biobj-mixint_f092_i10_d020 1.0",
  "bbob-biobj-mixint_f092_i10_d040 1.0",
  "bbob-biobj-mixint_f092_i10_d080 1.0",
  "bbob-biobj-mixint_f092_i10_d160 1.0",
  "bbob-biobj-mixint_f092_i11_d005 1.0",
  "bbob-biobj-mixint_f092_i11_d010 1.0",
  "bbob-biobj-mixint_f092_i11_d020 1.0",
  "bbob-biobj-mixint_f092_i11_d040 1.0",
  "bbob-biobj-mixint_f092_i11_d080 1.0",
  "bbob-biobj-mixint_f092_i11_d160 1.0",
  "bbob-biobj-mixint_f092_i12_d005 1.0",
  "bbob-biobj-mixint_f092_i12_d010 1.0",
  "bbob-biobj-mixint_f092_i12_d020 1.0",
  "bbob-biobj-mixint_f092_i12_d040 1.0",
  "bbob-biobj-mixint_f092_i12_d080 1.0",
  "bbob-biobj-mixint_f092_i12_d160 1.0",
  "bbob-biobj-mixint_f092_i13_d005 1.0",
  "bbob-biobj-mixint_f092_i13_d010 1.0",
  "bbob-biobj-mixint_f092_i13_d020 1.0",
  "bbob-biobj-mixint_f092_i13_d040 1.0",
  "bbob-biobj-mixint_f092_i13_d080 1.0",
  "bbob-biobj-mixint_f092_i13_d160 1.0",
  "bbob-biobj-mixint_f092_i14_d005 1.0",
  "bbob-biobj-mixint_f092_i14_d010 1.0",
  "bbob-biobj-mixint_f092_i14_d020 1.0",
  "bbob-biobj-mixint_f092_i14_d040 1.0",
  "bbob-biobj-mixint_f092_i14_d080 1.0",
  "bbob-biobj-mixint_f092_i14_d160 1.0",
  "bbob-biobj-mixint_f092_i15_d005 1.0",
  "bbob-biobj-mixint_f092_i15_d010 1.0",
  "bbob-biobj-mixint_f092_i15_d020 1.0",
  "bbob-biobj-mixint_f092_i15_d040 1.0",
  "bbob-biobj-mixint_f092_i15_d080 1.0",
  "bbob-biobj-mixint_f092_i15_d160 1.0"
};
