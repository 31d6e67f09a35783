import checks_derive
import checks_lib

CHECKS = {}
for _i in ['C%02d' % i for i in range(1, 11)] + ['C13']:
    CHECKS[_i] = ('translation_validation', checks_derive.check)
for _i in checks_lib.USED:
    CHECKS[_i] = ('other', checks_lib.check)
import check_overlap
CHECKS['C11'] = ('translation_validation', check_overlap.check)
import check_malformed
CHECKS['C12'] = ('translation_validation', check_malformed.check)
import check_witness
CHECKS['C14'] = ('translation_validation', check_witness.hygiene)
CHECKS['C15'] = ('translation_validation', check_witness.threads)
CHECKS['C26'] = ('translation_validation', check_witness.contexts_check)
CHECKS['C29'] = ('translation_validation', check_witness.accepts)
CHECKS['C40'] = ('translation_validation', check_witness.quiet)
import check_effects
CHECKS['C27'] = ('other', check_effects.deterministic)
CHECKS['C28'] = ('other', check_effects.nonblocking)
import check_global
CHECKS['C35'] = ('other', check_global.stateless)
CHECKS['C36'] = ('other', check_global.safe)
CHECKS['C37'] = ('other', check_global.cancels)
CHECKS['C38'] = ('other', check_global.survives)
CHECKS['C39'] = ('other', check_global.compiled_once)
import check_diag
CHECKS['C41'] = ('translation_validation', check_diag.check)
import check_api
CHECKS['C42'] = ('translation_validation', check_api.check)
