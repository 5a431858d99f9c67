"""Writes known_findings.txt (run by hand when findings change; checks only read the file)."""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import lint
FIX = '''C04 83551cb 3D child/parent sampler called the flip without the current entry
C04 3f21699 every parent layer was scored with the first parent's model
C02 7e09bcc missing parentheses in the 3D fuzzy OR-XOR product
C02 d231032 lom_generate_data_fast ignored fuzzy=True for 3D and some models
C09 7a0137d factor_mean_old output was on the [-1,1] scale
C20 dcd590e MAX-AND prediction used the smallest active dispersion
C20 b255b04 MAX-AND updates confused latent index and dispersion rank
C16 c6d8d79 MAX-AND noise update referred to mm.bda_MAX_AND
C16 f8ee0ff references to posterior_score_OR_ALL_2D/3D
C11 7ac4481 MAX-AND factor updates used dispersions of layer creation
C21 1028cb5 sampled qL thresholds could exceed the considered range
C21 8f2e740 qL threshold conditional ignored the data and read other columns
C05 2d105ca qL factor updates redrew fixed entries and ignored the dispersion
C05 6169fae qL thresholds were handled as a factor if both factors are fixed
C22 74b436e int16/int8 evidence scores overflow
C11 92c2124 factor updates used the Bernoulli prior of sampler creation
C16 9e3d5ab IBP fixed-entries masks kept the old number of columns
C24 1618362 unsupported models and architectures entered a debugger or passed silently
C24 5b07f1e get_scalar_output_function_* returned None for unknown models
C24 9a4ea0a output accepted unknown techniques and altered the model label
C09 ea62572 qL output was on the [-1,1] scale
C23 a2c6d1a pre-burn-in iterations were forgotten without convergence
C23 ec6f910 convergence was judged on partly filled windows
C23 1f3e7e7 annealing ended one step before the target
C05 b167c21 inference of a matrix outside a layer failed
C15 a311508 remove_dimension left masks and MAX-AND dispersions alone
C15 cf2c81e clean_up_codes skipped the dimension that follows a removed one
C05 c672300 reset_dimension overwrote fixed entries
C05 6d82c61 fixed entries could not be given as a mask
C19 eca5a95 expected density of XOR-XOR and NXOR-XOR
C16 4690b42 compiled signatures with the wrong number of argument types
C16 354c1a1 undefined names and removed numpy aliases
C18 dc4450b index pairs from zip were consumed twice in ROC and relevance helpers
C17 825652c noise helpers ignored the seed
C14 1d04f71 show('map') thresholded at 0.5
C24 e696b16 add_layer without child failed for inverted models
C20 e60af15 expected MAX-AND output could exceed one
C16 b9c3051 rank of the compiled 3D fuzzy output
C23 6446ef7 the noise parameter was updated in iterations in which it was to be kept when more than the minimum were requested
C26 4aa8262 the prior of the number of new IBP dimensions was the Poisson probability of the total number of dimensions
C26 e1c8967 the IBP likelihood of new dimensions took the density of the attributes for the probability of being off
C26 90b648d attributes of new IBP dimensions were drawn under a flat prior although existing ones are not
C24 62614a5 parent layers of qL-AND and IBP factors were ignored without an error
C24 eeb852a qL-AND output accepted any technique
C14 4cb32fd a new matrix could not be given by its density
C31 6b6782a LOM_predictive inverted the training data of its caller for models with inverted data
'''
out = ['# known: suppresses exactly the finding with that property, rule, construct and text; fixed: suppresses nothing', '']
for l in FIX.strip().split('\n'):
    c, h, w = l.split(' ', 2)
    out.append('fixed: property=%s %s %s' % (c, h, w))
out.append('')
LEG = ('draw_lbda_or', 'draw_lbda_tensorm_indp', 'tensorm_reconstruct_indp', 'predict_applicability')
for n, l in lint.lint(os.environ.get('SA_REPO', '/repo')).items():
    seen = set()
    for rule, con, msg, where in l.out:
        if not any(x in con for x in LEG):
            print('not listed:', rule, con, msg)
            continue
        if (rule, con, msg) not in seen:
            seen.add((rule, con, msg))
            out.append('known: property=C16 ;; rule=%s ;; construct=%s ;; what=%s -- left over from an earlier code base, any call fails' % (
                rule, con, msg))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
