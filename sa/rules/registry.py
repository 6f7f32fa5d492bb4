from . import opt
RULES = {}


def reg(pid, fns, rules, how, **kw):
    RULES[pid] = dict(fns=fns, rules=rules, how=how, **kw)


reg("O01", [opt.O01_order], ["loop-order", "nan-check"], "typestate")
reg("O02", [opt.O02_budget], ["budget"], "budget")
from . import opt2
reg("O03", [opt2.O03_best], ["best-of-history", "optimum-xml"], "best")
reg("O04", [opt2.O04_history], ["history-row", "history-initial", "history-feasibility", "history-initial-best"], "hist")
from . import opt3
reg("O05", [opt3.O05_improvement], ["improvement"], "")
reg("O06", [opt3.O06_proposal], ["evaluated-design"], "")
reg("O08", [opt3.O08_discrete], ["discrete"], "")
reg("O07", [opt3.O07_boxes], ["search-box"], "")
reg("O09", [opt3.O09_acquisition], ["expected-improvement", "feasibility-probability"], "")
from . import opt4
reg("O10", [opt4.O10_selection], ["selection"], "")
from . import opt5
reg("O11", [opt5.O11_trust, opt5.O11_sigma, opt5.O11_crowding, opt5.O11_settings], ["trust-region", "exploration", "crowding"], "")
reg("O12", [opt5.O12_gradient_steps, opt5.O12_gradient_data, opt5.O12_derivatives], ["gradient-steps"], "")
reg("O13", [opt5.O13_box, opt5.O13_dimension, opt5.O13_functions, opt5.O13_models, opt5.O13_start], ["box", "dimension", "functions", "models", "start"], "")
from . import threads
reg("T01", [threads.T01_races], ["data-race"], "")
from . import lin
reg("L01", [lin.L01_vector_arithmetic, lin.L01_vector_extrema, lin.L01_tests, lin.L01_order], ["vec-arithmetic"], "")
reg("L02", [lin.L02_vector_memory, lin.L02_normalization], ["vec", "normalization"], "")
reg("L03", [lin.L03_matrix, lin.L03_rows_columns, lin.L03_random, lin.L03_access, lin.L03_delete_rows, lin.L06_matrix_memory], ["mat"], "")
reg("L04", [lin.L04_products, lin.L04_solvers], ["product", "solver"], "")
reg("L05", [lin.L05_kernels, lin.L05_correlation_matrices], ["kernel", "correlation-matrix"], "")
from . import sur
reg("S01", [sur.S01_columns, sur.S01_reading, sur.S01_split, sur.S01_full], ["training-data"], "")
reg("S02", [sur.S02_normalisation, sur.S02_test_data], ["data-normalisation", "test-data"], "")
reg("S03", [sur.S03_system, sur.S03_initial, sur.S03_prediction], ["kriging-system", "kriging-prediction"], "")
reg("S04", [sur.S04_objective, sur.S04_train, sur.S04_warm_start], ["kriging-training", "warm-start"], "")
reg("S05", [sur.S05_regression, sur.S05_saved], ["linear-regression"], "")
reg("S06", [sur.S06_correlation], ["correlation-function"], "")
reg("S07", [sur.S07_errors, sur.S07_results], ["model-error", "test-results"], "")
reg("S08", [sur.S08_new_sample, sur.S08_rebuild, sur.S08_setup, sur.S08_settings], ["new-sample", "model-setup"], "")
reg("S09", [sur.S08_tester, sur.S09_settings], ["model-test"], "")
from . import ea
reg("G01", [ea.G01_individuals], ["individual"], "")
reg("G02", [ea.G02_population], ["population"], "")
reg("G03", [ea.G03_selection], ["evolution-selection"], "")
reg("G04", [ea.G04_evolution], ["evolution"], "")
reg("G05", [ea.G05_settings], ["evolution-settings"], "")
from . import files
reg("F01", [files.F01_matrices], ["csv-files"], "")
from . import design
reg("D01", [design.D01_samples, design.D01_sizes, design.D01_proposed, design.D01_direction], ["sample", "design", "proposed-design", "direction"], "")
reg("E01", [design.E01_write, design.E01_read, design.E01_command, design.E01_run, design.E01_evaluate], ["evaluation"], "")
reg("E02", [design.E02_data, design.E02_model, design.E02_settings], ["function-model"], "")
reg("K01", [design.K01_constraints], ["constraint"], "")
reg("F02", [files.F02_designs], ["design-files"], "")
reg("G06", [files.G06_population], ["population-file"], "")
from . import bounds
reg("B01", [bounds.B01_bounds], ["bounds"], "")
from . import api
reg("A01", [api.A01_problem, api.A01_expression, api.A01_interface], ["problem", "expression", "interface"], "")
reg("A02", [api.A02_run], ["run"], "")
from . import driver
reg("C01", [driver.C01_text, driver.C01_words, driver.C01_lists], ["xml", "words", "lists"], "")
reg("C02", [driver.C02_objective, driver.C02_constraints, driver.C02_models, driver.C02_general], ["objective", "constraints", "models", "general-settings"], "")
reg("C03", [driver.C03_sections, driver.C03_keywords, driver.C03_values, driver.C03_run, driver.C03_main], ["sections", "keywords", "values", "run", "main"], "")
reg("C04", [driver.C04_parameters, driver.C04_study], ["parameters", "study"], "")
from . import runs
reg("R01", [runs.R01_optimizer, runs.R01_functions, runs.R01_models, runs.R01_evolution], ["valid-state"], "")
RULES["O04"]["fns"].append(opt5.O04_record)
RULES["O04"]["rules"].append("history-record")
RULES["O04"]["fns"].append(opt5.O04_all)
RULES["O04"]["rules"].append("all-constraints")
RULES["O09"]["fns"].append(opt5.O09_estimates)
RULES["O09"]["rules"].append("constraint-estimates")
from . import mem
reg("M01", [mem.M01_storage], ["storage"], "")
