"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

G = 'src/guidelines/'
prop('C01', 'Balance checks decide exactly the +/- ply-count balance of a lay-up',
     'A lay-up is reported balanced if and only if every fibre angle theta other than 0 and 90 degrees occurs exactly as often as -theta. '
     'The balance penalty of a lay-up or of its per-angle ply counts is zero exactly when it is balanced, and otherwise is its number of unpaired plies divided by its ply count, for one lay-up or a list of lay-ups.',
     ['inputs', 'configurations'], 'every lay-up (ply angles, ply count, queued plies) and every set of allowed angles',
     'test_balance.py samples three stacks; the claim is over all sequences of angles and all angle sets.',
     [G + 'balance.py'], [('is_balanced', G + 'balance.py'), ('calc_penalty_bal', G + 'balance.py')],
     ['return values of the balance checker and of the balance penalty'])
prop('C02', 'Contiguity checks and counters agree with the longest-block rule',
     'A lay-up satisfies the contiguity guideline with limit n if and only if it has no block of more than n adjacent plies at the same angle. '
     'The contiguity violation count and penalty of a lay-up or of each panel are zero exactly when it satisfies the guideline, and the count is the number of windows of n+1 identical adjacent plies, accumulated ply by ply or taken on the complete laminate alike. The counts and penalties look between the outermost plies when damage tolerance fixes two outer plies.',
     ['inputs', 'configurations'], 'every lay-up, every limit n in 2..6, symmetric and asymmetric laminates',
     'No test exercises contiguity at all; the hand-unrolled comparisons differ per limit and per stack length.',
     [G + 'contiguity.py', G + 'internal_contig.py'],
     [('is_contig', G + 'contiguity.py'), ('calc_n_viola_contig', G + 'contiguity.py'), ('calc_penalty_contig_ss/mp', G + 'contiguity.py'), ('internal_contig2', G + 'internal_contig.py')],
     ['checker verdicts, violation counts and penalties'])
prop('C03', 'Disorientation checks and counters agree with the angle-difference rule',
     'Two adjacent plies comply with the disorientation guideline if and only if their angles differ, modulo 180 degrees, by at most the allowed angle; a lay-up complies iff all its adjacent pairs do, except that when damage tolerance with two outer plies is active the outermost pair at each surface is exempt. '
     'The number of disorientation violations of a lay-up or panel counts exactly the non-complying pairs, so it is zero exactly when the lay-up complies.',
     ['inputs', 'configurations'], 'every lay-up, allowed difference and damage-tolerance setting',
     'No test exercises disorientation.',
     [G + 'disorientation.py'], [('is_diso', G + 'disorientation.py'), ('is_diso_ss', G + 'disorientation.py'), ('calc_n_penalty_diso_ss', G + 'disorientation.py'), ('calc_number_violations_diso_mp', G + 'disorientation.py'), ('calc_n_viola_diso', G + 'disorientation.py')],
     ['checker verdicts and violation counts'])
prop('C04', 'Damage-tolerance check decides exactly the outer-ply rule in force',
     'A lay-up satisfies the damage-tolerance guideline if and only if the outermost ply at each non-symmetric surface is at +45 or -45 degrees (rule 1), the two outermost plies are at +45/-45 or -45/+45 (rule 2), or the two outermost plies are each at +45 or -45 (rule 3). '
     'For symmetric laminates only one surface is examined, and when the guideline is inactive every lay-up is accepted.',
     ['inputs', 'configurations'], 'every lay-up of two plies or more, each rule, symmetric or not',
     'test_dam_tol.py samples eight stacks.',
     [G + 'dam_tol.py'], [('is_dam_tol', G + 'dam_tol.py')], ['checker verdict'])
prop('C05', '10% rule on ply counts is decided and penalised exactly',
     'A lay-up meets the ply-count 10% rule if and only if each of the required fractions of 0, 90, +45, -45 and combined +/-45 degree plies is reached by the number of plies at those angles over the total number of plies, queued plies included and the middle ply of a symmetric laminate counted once (one half in half-laminate counts). '
     'The ply counts reported per angle are the exact counts, and the 10% penalty (one lay-up, ply counts, or one per panel) is zero exactly when the rule is met and otherwise the summed shortfall fraction.',
     ['inputs', 'configurations'], 'every lay-up, queue of plies, percentage setting, symmetric or not',
     'test_10_percent_rule.py samples a handful of stacks with one percentage setting.',
     [G + 'ten_percent_rule.py'], [('is_ten_percent_rule', G + 'ten_percent_rule.py'), ('calc_penalty_10_ss / calc_penalty_10_pc', G + 'ten_percent_rule.py'), ('calc_n_plies_per_angle / calc_ply_counts', G + 'ten_percent_rule.py')],
     ['checker verdict, ply counts, penalty'])
prop('C06', '10% rule on lamination parameters accepts exactly the feasible region',
     'For the lamination-parameter form of the 10% rule with fraction p, a laminate is accepted and gets a zero penalty if and only if its in-plane lamination parameters lie inside the region (1-4p)^2 + (1-4p) xi2 - 2 xi1^2 >= 0 and xi2 <= 1-4p, up to a numerical tolerance. '
     'A laminate outside the region gets a positive penalty, which never exceeds its distance to any point of the region by more than the sampling resolution.',
     ['inputs', 'configurations'], 'every pair of in-plane lamination parameters and every fraction 0<p<0.25',
     'The tests sample a few points of a two-parameter continuum.',
     [G + 'ten_percent_rule_Abdalla.py', G + 'ten_percent_rule.py'], [('calc_distance_Abdalla', G + 'ten_percent_rule_Abdalla.py'), ('calc_distance_2_points', G + 'ten_percent_rule_Abdalla.py')],
     ['penalty value, accept/reject'])
prop('C07', 'The combined checker accepts exactly the lay-ups meeting every active rule',
     'The combined check of a lay-up succeeds if and only if it has the requested number of plies (when one is asked for) and satisfies every switched-on rule among damage tolerance, balance, in-plane orthotropy, disorientation, contiguity and the 10% rule; the combined check of a stacking sequence table succeeds if and only if the switched-on covering rule (none of the covering plies of either side is dropped anywhere) and ply-drop spacing rule hold. '
     'When any active rule is broken they signal an error, and they never alter the designs they examine.',
     ['inputs', 'configurations'], 'every lay-up, every stacking sequence table of a blended structure and every combination of active rules',
     'No test runs the combined checker; the interaction of rule switches is a product space.',
     [G + 'one_stack.py'], [('check_lay_up_rules', G + 'one_stack.py'), ('check_ply_drop_rules', G + 'one_stack.py')], ['exception raised or not'])
prop('C08', 'Design-guideline settings are normalised and rejected as documented',
     'A set of design guidelines built from accepted settings exposes the allowed angles without duplicates in increasing order, exact angle-to-index tables, per-angle cosine/sine data equal to cos2t, cos4t, sin2t, sin4t, positive angles and balanced-angle pairs consistent with that order, and 10%-rule fractions in [0,1]. '
     'Settings that are out of range (percentages, contiguity limits below two, damage-tolerance rule, numbers of covering plies, minimum ply-drop spacing, angles outside (-90, 90], repeated angles or angles without their opposite) or switches that are no booleans are rejected with an error rather than stored.',
     ['configurations'], 'every combination of guideline settings',
     'Only default settings are used in tests.',
     ['src/BELLA/constraints.py', 'src/LAYLA_V02/constraints.py'], [('Constraints.__init__', 'src/BELLA/constraints.py'), ('Constraints.__init__', 'src/LAYLA_V02/constraints.py')], ['attributes of the constraints object', 'exceptions'])
prop('C09', 'Ply-group filters keep exactly the compatible stacking sequences',
     'Filtering a table of candidate ply groups on contiguity and/or disorientation, within the group or at the junction with the plies already placed, removes a row if and only if that row breaks the active rule there, keeps the order and content of the other rows, and keeps a paired second table aligned row by row.',
     ['inputs', 'configurations'], 'every table of candidate groups, every adjacent stack, every limit',
     'No test; the filters are hand-unrolled per limit, group size and neighbour length.',
     [G + 'internal_contig.py', G + 'internal_diso_contig.py', G + 'external_contig.py', G + 'external_diso_contig.py'],
     [('internal_contig', G + 'internal_contig.py'), ('internal_diso_contig', G + 'internal_diso_contig.py'), ('external_contig', G + 'external_contig.py'), ('external_diso_contig', G + 'external_diso_contig.py')], ['returned tables'])
prop('C10', 'Beam-search pruning never offers or loses a ply against the guidelines',
     'At each step of the ply-by-ply search of a symmetric laminate (or, for BELLA, of a laminate that is not symmetric, whose plies are placed alternately from the bottom and top surfaces inwards), the pruning keeps a candidate angle only if appending it to the plies already placed breaks neither the damage-tolerance, disorientation, contiguity nor middle-ply rule that is active, and drops a candidate only if it breaks one of them. '
     'If no candidate survives it reports a dead end instead of an empty set of choices. (The ply next to the surface may be exempt from disorientation and contiguity when two surface plies are fixed for damage tolerance.)',
     ['inputs', 'configurations'], 'every partial lay-up, search level, candidate set and rule setting, for both optimisers',
     'No test exercises pruning.',
     ['src/BELLA/pruning.py', 'src/LAYLA_V02/pruning.py'], [('pruning_diso_contig_damtol', 'src/BELLA/pruning.py'), ('pruning_diso_contig_damtol', 'src/LAYLA_V02/pruning.py')], ['returned candidate set'])
prop('C11', 'Ply-drop spacing penalties count the spacing violations of a ply-drop layout',
     'The spacing penalty of a ply-drop layout is zero exactly when, at every panel boundary, no two dropped plies are separated by fewer plies than the minimum ply-drop spacing asked for, it is otherwise the boundary-weighted sum, over consecutive drops that are too close, of the missing distance (minimum spacing minus plies in between) divided by the number of ply positions of the boundary, and it does not depend on the sign or value of the fibre angles in the layout. '
     'Two layouts are identified as identical exactly when they drop the same plies in every panel compared.',
     ['inputs', 'configurations'], 'every ply-drop layout, panel connectivity, boundary weight and minimum spacing',
     'No test exercises ply-drop spacing.',
     [G + 'ply_drop_spacing.py'], [('calc_penalty_spacing', G + 'ply_drop_spacing.py'), ('indic_violations_ply_drop_spacing', G + 'ply_drop_spacing.py'), ('is_same_pdl', G + 'ply_drop_spacing.py')], ['penalty', 'equality verdict'])
prop('C12', 'Conversions between lay-ups, lay-up tables and ply-drop layouts are lossless',
     'Converting panel lay-ups and a ply-drop layout to a stacking sequence table and back returns the same lay-ups; every panel row holds exactly the plies of its lay-up in order, with all other positions marked as dropped, and symmetric laminates give symmetric rows. '
     'Extending a reduced design to all panels copies to each panel the design of the panel of the same thickness, and position translations between a panel, the reference panel and the table point to the same ply.',
     ['inputs', 'configurations'], 'every set of panel lay-ups and ply-drop layout of a symmetric or asymmetric structure',
     'No test exercises the conversions.',
     ['src/BELLA/format_pdl.py'], [('convert_ss_to_sst / convert_sst_to_ss', 'src/BELLA/format_pdl.py'), ('convert_ss_guide_to_sst', 'src/BELLA/format_pdl.py'), ('extend_after_guide_based_blending', 'src/BELLA/format_pdl.py'), ('reduce_for_guide_based_blending', 'src/BELLA/format_pdl.py'), ('pos_in_ss_ref_to_pos_in_sst / pos_in_sst_to_pos_in_panel', 'src/BELLA/format_pdl.py')], ['returned tables'])
prop('C13', 'Generated ply-drop layouts are always valid guide-based blends',
     'Whatever the random choices and time-outs, every ply-drop layout produced for a structure gives each panel exactly its number of plies, never drops a ply of a panel that a thinner panel keeps, never drops covering plies, and is symmetric for symmetric laminates, with plies numbered consistently from the outside. '
     'The returned layouts are distinct, no more than asked for, and ordered or replaced so that lower-penalty layouts are preferred.',
     ['inputs', 'configurations', 'schedules'], 'every random draw, clock reading, panel thickness distribution and covering setting',
     'The generators are randomised and untested.',
     ['src/BELLA/pdl_tools.py', 'src/BELLA/pdl_ini.py', 'src/BELLA/pdl_group.py'], [('randomly_drop_n_plies / randomly_pdl_guide', 'src/BELLA/pdl_group.py'), ('create_initial_pdls', 'src/BELLA/pdl_ini.py'), ('format_ply_drops / ply_drops_at_each_boundaries / global_pdl_from_local_pdl', 'src/BELLA/pdl_tools.py')], ['returned ply-drop layouts'])
prop('C14', 'Laminates and structures are partitioned into groups without losing a ply',
     'Dividing a laminate or a blended structure into ply groups yields groups whose sizes sum to the number of plies to design, whose first-ply positions follow from those sizes, and whose sizes respect the minimum and maximum group sizes asked for whenever such a division exists. '
     'Across a structure, each panel loses in total exactly its ply-count difference to the thickest panel, and no group drops more plies than it has.',
     ['inputs', 'configurations'], 'every ply count, damage-tolerance and covering setting, group size limits, symmetric or not',
     'No test exercises the division.',
     ['src/LAYLA_V02/divide_laminate_sym.py', 'src/LAYLA_V02/divide_laminate_asym.py', 'src/BELLA/divide_panels.py'], [('divide_laminate_sym', 'src/LAYLA_V02/divide_laminate_sym.py'), ('divide_laminate_asym', 'src/LAYLA_V02/divide_laminate_asym.py'), ('divide_panels', 'src/BELLA/divide_panels.py')], ['group sizes and positions'])
prop('C15', 'Ply design orders visit every ply exactly once',
     'The order in which the plies of a laminate or of each panel are designed is a permutation of the plies to design: for symmetric laminates the plies from the surface to the middle, the middle ply last, and for asymmetric laminates alternately from both surfaces inwards. '
     'The levels of each ply group are the consecutive positions of that order.',
     ['inputs', 'configurations'], 'every ply count and list of panels, symmetric or not',
     'No test.',
     ['src/BELLA/ply_order.py', 'src/LAYLA_V02/ply_order.py'], [('calc_ply_order', 'src/BELLA/ply_order.py'), ('calc_levels', 'src/BELLA/ply_order.py'), ('calc_ply_order', 'src/LAYLA_V02/ply_order.py'), ('calc_levels', 'src/LAYLA_V02/ply_order.py')], ['returned orders'])
prop('C16', 'Ply contributions add up to the classical lamination parameters',
     'For every lay-up the per-ply lamination-parameter contributions used by the search, summed over the plies in their design order, equal the classical in-plane, coupling and out-of-plane lamination parameters of the complete laminate (coupling zero for symmetric laminates). '
     'The ply moments of areas are non-negative and their totals over all plies equal those of the whole laminate, and the cumulated moments are their running sums.',
     ['inputs', 'configurations'], 'every lay-up, ply count, angle set, ply-drop layout, symmetric or not',
     'No test; any single lay-up samples a linear identity in all plies.',
     ['src/BELLA/lampam_matrix.py', 'src/BELLA/moments_of_areas.py', 'src/LAYLA_V02/moment_of_areas.py', 'src/RELAY/repair_10_bal.py', 'src/RELAY/repair_flexural_tools.py'],
     [('calc_delta_lampams / calc_delta_lampams2', 'src/BELLA/lampam_matrix.py'), ('calc_mom_of_areas / calc_mom_of_areas2', 'src/BELLA/moments_of_areas.py'), ('calc_mom_of_areas', 'src/LAYLA_V02/moment_of_areas.py')], ['returned contribution tables'])
prop('C17', 'Reducing a structure to its distinct thicknesses loses nothing',
     'The reduced structure has one panel per distinct ply count in increasing order, every panel maps to the reduced panel with its ply count, panel weights and boundary weights of merged panels are added up so that their totals are preserved, and boundaries between panels of equal ply counts disappear. '
     'A symmetric structure with a panel of even ply count thicker than one of odd ply count is rejected. The reference panel is the one whose ply count is the smallest not below the requested ply count (the thickest if none); when all ply counts have the same parity or the laminates are not symmetric, the step tables to thinner and thicker panels visit each panel in turn, once per ply (or ply pair) to drop or add.',
     ['inputs', 'configurations'], 'every list of panel ply counts, weights, connectivity and requested reference ply count',
     'No test.',
     ['src/BELLA/reduced_multipanels.py'], [('ReducedMultiPanel', 'src/BELLA/reduced_multipanels.py'), ('calc_ind_ref / calc step tables', 'src/BELLA/reduced_multipanels.py')], ['attributes of the reduced structure'])
prop('C18', 'Structure definitions are consistent and inconsistent ones rejected',
     "A structure built from valid panels has boundary pairs exactly as implied by the panels' neighbour lists, each pair once and with the weight declared for it (one by default) whatever the order or side it was declared from, and correct totals (area, weight, ply counts, thickest panels, middle plies). Lamination-parameter weightings are cleared for the parameters the guidelines settle and normalised to a unit sum. "
     'Structures with duplicated identifiers, unknown neighbours, panels not all connected, or missing or negative boundary weights, and panels with non-integer or non-positive ply counts, negative or non-numerical geometry or weight, or lamination-parameter weightings that are not twelve non-negative floats, are rejected with an error.',
     ['inputs', 'configurations'], 'every list of panels with identifiers, neighbours, ply counts, weights and geometry',
     'No test.',
     ['src/BELLA/panels.py', 'src/BELLA/multipanels.py'], [('Panel', 'src/BELLA/panels.py'), ('MultiPanel', 'src/BELLA/multipanels.py')], ['attributes', 'exceptions'])
prop('C19', 'Material properties obey the classical stiffness relations',
     'A material built from valid engineering constants exposes reduced stiffnesses and stiffness invariants satisfying the classical relations to those constants (reciprocal Poisson ratios, Q11 = E11/(1-v12 v21), U1..U5 combinations), and, when at most one density is given, area density, volume density and ply thickness consistent with each other. '
     'Non-positive moduli or thickness, negative densities and values that are no numbers are rejected with an error.',
     ['inputs'], 'every set of engineering constants',
     'No test; a continuum of real inputs.',
     ['src/BELLA/materials.py', 'src/LAYLA_V02/materials.py'], [('Material', 'src/BELLA/materials.py'), ('Material', 'src/LAYLA_V02/materials.py')], ['attributes', 'exceptions'])
prop('C20', 'Buckling factors follow the closed-form plate formula and its scaling laws',
     'The buckling factor of a panel equals the minimum over the modes examined of pi^2 [D11 (m/a)^4 + 2 (D12 + 2 D66)(m/a)^2 (n/b)^2 + D22 (n/b)^4] / (Nx (m/a)^2 + Ny (n/b)^2), the bending stiffnesses being those of the out-of-plane lamination parameters and material invariants. '
     'The buckling margin is positive exactly when the factor says the panel does not buckle, as a percentage over one.',
     ['inputs'], 'every material, geometry, load and out-of-plane lamination parameters',
     'No test; a continuum of real inputs.',
     ['src/buckling/buckling.py'], [('buckling_factor', 'src/buckling/buckling.py'), ('buckling_margin', 'src/buckling/buckling.py')], ['returned factor'])
prop('C21', 'Objective functions are the weighted sums they are documented to be',
     'The objective of a panel is the weighted sum of squared (for LAYLA, squared or absolute as asked for) deviations of its lamination parameters from their targets, the objective of a structure the panel-weighted combination of panel objectives each scaled by one plus its weighted penalties, and each is non-negative and zero when all targets are met. '
     'With no penalties the constrained objective equals the unconstrained one, and raising any penalty never lowers it. Penalty coefficients and numbers of modes out of range are rejected, and coefficients of inactive guidelines are zero.',
     ['inputs', 'configurations'], 'every lamination-parameter vector, target, weighting, penalty and coefficient',
     'No test; a continuum of real inputs.',
     ['src/BELLA/objectives.py', 'src/LAYLA_V02/objectives.py', 'src/BELLA/obj_function.py'], [('calc_obj_one_panel / calc_obj_each_panel / calc_obj_multi_panel', 'src/BELLA/objectives.py'), ('objectives / calc_obj_multi_ss', 'src/LAYLA_V02/objectives.py'), ('ObjFunction', 'src/BELLA/obj_function.py')], ['returned objective values'])
prop('C22', 'Repair for balance and 10% rule delivers a balanced, compliant ply set',
     'Repairing a lay-up for balance and the 10% rule yields a partial lay-up and a queue of plies that together have the original ply count, are balanced when balance is required, reach the minimum number of plies in each direction required by the 10% rule, and keep symmetric laminates symmetric with a 0 or 90 degree middle ply. '
     'A lay-up that already complies is returned unchanged, and the outer plies fixed by damage tolerance are left in place.',
     ['inputs', 'configurations'], 'every lay-up meeting the damage-tolerance and middle-ply preconditions, every rule combination and angle set',
     'No test.',
     ['src/RELAY/repair_10_bal.py', 'src/RELAY/repair_tools.py'], [('repair_10_bal', 'src/RELAY/repair_10_bal.py'), ('calc_mini_10', 'src/RELAY/repair_10_bal.py')], ['returned lay-up and ply queue'])
prop('C23', 'Disorientation-contiguity repair permutes plies and reports success truthfully',
     'Repairing a partial lay-up and its ply queue for disorientation and contiguity returns a complete lay-up that contains exactly the same plies, symmetric if the laminate is, with the damage-tolerance outer plies unchanged. '
     'When it reports success the lay-up satisfies every active disorientation and contiguity rule.',
     ['inputs', 'configurations'], 'every partial lay-up, queue, limit, search depth and rule setting, symmetric or not',
     'No test.',
     ['src/RELAY/repair_diso_contig.py', 'src/RELAY/repair_diso_contig_tools.py', 'src/RELAY/repair_from_inside_sym.py', 'src/RELAY/repair_from_outside_sym.py', 'src/RELAY/repair_from_inside_asym.py', 'src/RELAY/repair_from_outside_asym.py'],
     [('repair_diso_contig / repair_diso_contig_list', 'src/RELAY/repair_diso_contig.py')], ['returned lay-up and success flags'])
prop('C24', 'In-plane refinement preserves feasibility and never worsens the objective',
     'Refining a partial lay-up for in-plane lamination parameters returns a list of lay-up/queue pairs, best first, whose last entry is the input, each with the original ply count, symmetry, balance when required and 10%-rule minima, with reported in-plane lamination parameters equal to those of the lay-up and queue together. '
     'The in-plane objective decreases strictly from each entry to the one before it.',
     ['inputs', 'configurations'], 'every lay-up, queue, target and weighting',
     'No test.',
     ['src/RELAY/repair_membrane.py', 'src/RELAY/repair_membrane_1_ipo.py', 'src/RELAY/repair_membrane_1_no_ipo.py', 'src/RELAY/repair_membrane_1_ipo_Abdalla.py', 'src/RELAY/repair_membrane_1_no_ipo_Abdalla.py', 'src/RELAY/repair_10_bal.py'],
     [('repair_membrane', 'src/RELAY/repair_membrane.py')], ['returned lists'])
prop('C25', 'Out-of-plane refinement permutes plies, keeps the rules, never worsens',
     'Refining a lay-up for out-of-plane lamination parameters returns a permutation of its plies with the same ply count, symmetry and damage-tolerance outer plies, that satisfies disorientation and contiguity whenever the input does. '
     'Its out-of-plane objective is never larger than that of the input.',
     ['inputs', 'configurations'], 'every lay-up, target, weighting and search width',
     'No test.',
     ['src/RELAY/repair_flexural.py', 'src/RELAY/repair_flexural_1.py', 'src/RELAY/repair_flexural_2.py', 'src/RELAY/repair_flexural_3.py', 'src/RELAY/repair_flexural_tools.py'],
     [('repair_flexural', 'src/RELAY/repair_flexural.py')], ['returned lay-up'])
prop('C26', 'Laminate repair returns either a fully compliant lay-up or the original one',
     'The complete laminate repair either reports success and returns a lay-up of the same ply count accepted by the combined lay-up checker, or reports failure and returns the lay-up it was given. '
     'The objective value returned on request is the one of the repaired lay-up. '
     'It never modifies the lay-up passed in.',
     ['inputs', 'configurations'], 'every lay-up and rule combination',
     'No test.',
     ['src/RELAY/repair_ss.py', 'src/RELAY/repair_10_bal.py', 'src/RELAY/repair_membrane.py', 'src/RELAY/repair_diso_contig.py', 'src/RELAY/repair_flexural.py', 'src/guidelines/one_stack.py'],
     [('repair_ss', 'src/RELAY/repair_ss.py')], ['returned lay-up and success flag'])
prop('C27', 'Multi-panel repair keeps the reference panel and returns a valid blend',
     'Re-designing the thinner or the thicker panels around the reference panel leaves the reference lay-up untouched and, when successful, returns for every panel a lay-up with its ply count, symmetric when required, obtained by ply drops only from the next thicker panel, meeting contiguity and the 10% rule, with stacking sequence table, ply-drop layout and lamination parameters matching the lay-ups. '
     'A failure is reported as such instead of returning an inconsistent design.',
     ['inputs', 'configurations'], 'every reference lay-up, panel ply counts, rules and beam limits',
     'No test.',
     ['src/RELAY/thick_to_thin.py', 'src/RELAY/thin_to_thick.py', 'src/RELAY/repair_reference_panel.py', 'src/RELAY/repair_mp.py'],
     [('repair_thick_to_thin', 'src/RELAY/thick_to_thin.py'), ('repair_thin_to_thick', 'src/RELAY/thin_to_thick.py')], ['returned table, lay-ups and lamination parameters'])
prop('C28', 'Sorting and array helpers compute what their names promise',
     'Sorting one list according to another rearranges it so that the items found in the second list come first, in the order of that list, followed by the other items in increasing order. The elementwise maximum of two arrays (or of an array and a number) is the elementwise maximum, arrays of different lengths being rejected. '
     'The subset-sum helpers count, find, list one at a time (for distinct increasing weights), and tabulate exactly the selections of the given weights, each used at most once, that add up to the requested total, and report when there is none.',
     ['inputs'], 'every list within the stated sizes',
     'One test samples one pair of arrays for the maximum only.',
     ['src/divers/sorting.py', 'src/divers/arrays.py', 'src/divers/subset_sum.py'], [('sortAccording', 'src/divers/sorting.py'), ('max_arrays', 'src/divers/arrays.py'), ('subset_sum_count', 'src/divers/subset_sum.py'), ('subset_sum_next', 'src/divers/subset_sum.py'), ('subset_sum_table', 'src/divers/subset_sum.py')], ['returned lists'])
prop('C29', 'Orthotropy penalties measure exactly the unwanted couplings',
     'The in-plane orthotropy penalty is zero exactly when the in-plane shear-extension lamination parameters are (numerically) zero and the out-of-plane orthotropy penalty exactly when the bend-twist ones are, each growing with their magnitude, and each is inactive when its rule is switched off. '
     'Single-laminate, multi-panel and list forms agree with each other. The in-plane orthotropy parameters are the magnitudes of the ratios of shear-extension coupling to extensional stiffnesses (and of the same compliances), and their penalty is the largest one divided by their number.',
     ['inputs', 'configurations'], 'every lamination-parameter vector and rule setting',
     'No test.',
     [G + 'ipo_oopo.py'], [('calc_penalty_ipo / calc_penalty_ipo_oopo_ss / calc_penalty_ipo_oopo_mp / calc_penalty_oopo_ss', G + 'ipo_oopo.py')], ['penalty values'])
prop('C30', 'Optimiser settings are accepted exactly when they are in range',
     'Building optimiser settings succeeds and stores the values given exactly when group sizes, beam-search limits, ply-drop counts, repair depths and percentages are of the documented type and range, and raises an error otherwise; penalty switches and coefficients are accepted and stored likewise, and are zero when their guideline is inactive. The final lamination-parameter weightings of LAYLA are the given sensitivities normalised to one, without those of lamination parameters that a symmetric, standard-angle or orthotropic laminate fixes, plus the penalty weightings asked for.',
     ['configurations'], 'every combination of optimiser settings',
     'No test.',
     ['src/BELLA/parameters.py', 'src/LAYLA_V02/parameters.py'], [('Parameters', 'src/BELLA/parameters.py'), ('Parameters', 'src/LAYLA_V02/parameters.py')], ['attributes', 'exceptions'])
prop('C31', 'Results and set-ups saved to spreadsheets can be read back unchanged',
     'Writing a structure, its set-up, ply-drop layouts or results to a workbook and reading it back yields the same data.',
     ['inputs'], 'every structure and result',
     'No test; spreadsheet I/O.',
     ['src/BELLA/save_set_up.py', 'src/BELLA/save_result.py', 'src/BELLA/pdls_in_excel.py', 'src/divers/excel.py'], [('save_multipanel etc.', 'src/BELLA/save_set_up.py')], ['files written'])
prop('C32', 'A whole optimisation returns a blended design meeting every active guideline',
     'The complete optimisation of a laminate or structure returns designs with the requested ply counts, blended across panels, whose reported objective and violations are those of the returned lay-ups, the best one among the designs it evaluated.',
     ['inputs', 'configurations', 'histories'], 'every problem definition',
     'No test; the whole-program run needs a missing dependency.',
     ['src/BELLA/optimiser.py', 'src/BELLA/optimiser_with_one_pdl.py', 'src/LAYLA_V02/optimiser.py', 'src/LAYLA_V02/beam_search.py'], [('BELLA_optimiser', 'src/BELLA/optimiser.py'), ('LAYLA_optimiser', 'src/LAYLA_V02/optimiser.py')], ['returned results'])
with open(OUT, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
