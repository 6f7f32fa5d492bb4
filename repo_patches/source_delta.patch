From 58f2e84b8062972daddb15091061926910fcb77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 01/40] fix: gradient step search shares one candidate and the
 best value between threads

---
 src/Optimizers/optimization.cpp | 46 +++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e30092f..312b467 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -526,19 +526,23 @@ void Optimizer::findPromisingDesignUnconstrainedGradientStep(DesignForBayesianOp
 #endif
 
 	for (int i = 0; i < numberOfInnerIterations; i++) {
-		/* generate a design around the global optimal design */
-		designToBeTried.generateRandomDesignVector(lb, ub);
-		vec d = designToBeTried.dv - globalOptimalDesign.designParametersNormalized;
+		/* generate a design around the global optimal design (every iteration has its own candidate) */
+		DesignForBayesianOptimization candidate = designToBeTried;
+		candidate.generateRandomDesignVector(lb, ub);
+		vec d = candidate.dv - globalOptimalDesign.designParametersNormalized;
 		//				d.print("d");
 		/* x_k+1 = x_k + d  =>  d = x_k+1 - x_k */
 		double gradDotDv = d.dot(gradient);
 		if (gradDotDv < 0) {
 			//					designToBeTried.dv.print("dv random");
-			objFun.calculateExpectedImprovementUsingDerivatives(designToBeTried);
-			if (designToBeTried.valueAcquisitionFunction > maxEI) {
-				{
-					maxEI = designToBeTried.valueAcquisitionFunction;
-					designWithMaxImprovement = designToBeTried;
+			objFun.calculateExpectedImprovementUsingDerivatives(candidate);
+#ifdef OPENMP_SUPPORT
+#pragma omp critical
+#endif
+			{
+				if (candidate.valueAcquisitionFunction > maxEI) {
+					maxEI = candidate.valueAcquisitionFunction;
+					designWithMaxImprovement = candidate;
 					//							printScalar(maxImprovement);
 					//					p.print("feasibility probabilities");
 				}
@@ -579,30 +583,34 @@ void Optimizer::findPromisingDesignConstrainedGradientStep(DesignForBayesianOpti
 #pragma omp parallel for
 #endif
 	for (int i = 0; i < numberOfInnerIterations; i++) {
-		/* generate a design around the global optimal design */
-		designToBeTried.generateRandomDesignVector(lb, ub);
-		vec d = designToBeTried.dv - globalOptimalDesign.designParametersNormalized;
+		/* generate a design around the global optimal design (every iteration has its own candidate) */
+		DesignForBayesianOptimization candidate = designToBeTried;
+		candidate.generateRandomDesignVector(lb, ub);
+		vec d = candidate.dv - globalOptimalDesign.designParametersNormalized;
 		//				d.print("d");
 		/* x_k+1 = x_k + d  =>  d = x_k+1 - x_k */
 		double gradDotDv = d.dot(gradient);
 		if (gradDotDv < 0) {
 			//					designToBeTried.dv.print("dv random");
-			objFun.calculateExpectedImprovementUsingDerivatives(designToBeTried);
+			objFun.calculateExpectedImprovementUsingDerivatives(candidate);
 			/* improvement is either zero or a positive value */
-			double ExpectedImprovement = designToBeTried.valueAcquisitionFunction;
+			double ExpectedImprovement = candidate.valueAcquisitionFunction;
 
-			estimateConstraints(designToBeTried);
-			calculateFeasibilityProbabilities(designToBeTried);
-			vec p = designToBeTried.constraintFeasibilityProbabilities;
+			estimateConstraints(candidate);
+			calculateFeasibilityProbabilities(candidate);
+			vec p = candidate.constraintFeasibilityProbabilities;
 			for (unsigned int j = 0; j < numberOfConstraints; j++) {
 				ExpectedImprovement *= p(j);
 			}
 			//				designToBeTried.print();
 			//				printScalar(improvement);
-			if (ExpectedImprovement > maxImprovement) {
-				{
+#ifdef OPENMP_SUPPORT
+#pragma omp critical
+#endif
+			{
+				if (ExpectedImprovement > maxImprovement) {
 					maxImprovement = ExpectedImprovement;
-					designWithMaxImprovement = designToBeTried;
+					designWithMaxImprovement = candidate;
 					//							printScalar(maxImprovement);
 					//					p.print("feasibility probabilities");
 				}
-- 
2.43.0


From 4b67fb38eed37a46b48c5f394598f3b68166a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 02/40] fix: candidates are compared with the shared best
 design outside the critical section

---
 src/Optimizers/optimization.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 312b467..14ec508 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -695,14 +695,12 @@ void Optimizer::searchAroundGlobalOptima(DesignForBayesianOptimization &designWi
 			designToBeTried.generateRandomDesignVectorAroundASample(dv0, lb,ub);
 			objFun.calculateExpectedImprovement(designToBeTried);
 			addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
-			if (designToBeTried.valueAcquisitionFunction
-					> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-				{
-					designWithMaxAcqusition = designToBeTried;
-				}
+			if (designToBeTried.valueAcquisitionFunction
+					> designWithMaxAcqusition.valueAcquisitionFunction) {
+				designWithMaxAcqusition = designToBeTried;
 #if 0
 				printf("A design with a better EI value has been found (second loop) \n");
 				designToBeTried.print();
@@ -735,14 +733,12 @@ void Optimizer::searchCompleteDesignSpace(DesignForBayesianOptimization &designW
 		designToBeTried.generateRandomDesignVector(lb, ub);
 		objFun.calculateExpectedImprovement(designToBeTried);
 		addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
-		if (designToBeTried.valueAcquisitionFunction
-				> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-			{
-				designWithMaxAcqusition = designToBeTried;
-			}
+		if (designToBeTried.valueAcquisitionFunction
+				> designWithMaxAcqusition.valueAcquisitionFunction) {
+			designWithMaxAcqusition = designToBeTried;
 		}
 	}
 }
-- 
2.43.0


From 56c1cc176118b57b4040316d1686bd2bcf70b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 03/40] fix: candidate design created without constraints has
 no design vector

---
 src/Design/design_bo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Design/design_bo.cpp b/src/Design/design_bo.cpp
index cfbb080..31b573c 100644
--- a/src/Design/design_bo.cpp
+++ b/src/Design/design_bo.cpp
@@ -37,6 +37,7 @@ DesignForBayesianOptimization::DesignForBayesianOptimization(int dimension){
 	objectiveFunctionValue = 0.0;
 	valueAcquisitionFunction = 0.0;
 	sigma = 0.0;
+	dv.resize(dim);
 }
 
 DesignForBayesianOptimization::DesignForBayesianOptimization(const vec& designVector, int numberOfConstraints){
-- 
2.43.0


From 9d2b545e1ac26f2d90a2583a0f2f70c8a7864855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 04/40] fix: threads of the Kriging training share one random
 number generator

---
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 2 +-
 src/InternalOptimizers/ea_population.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 4a15939..05bab93 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -14,7 +14,7 @@ class EAPopulation{
 
 private:
 
-	static std::mt19937 gen;
+	static thread_local std::mt19937 gen;
 
 	std::vector<EAIndividual> population;
 
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 36e8487..74c35d4 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -13,7 +13,7 @@
 using namespace std;
 namespace Rodop{
 
-std::mt19937 EAPopulation::gen(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAPopulation::gen(std::random_device{}());
 
 void EAPopulation::setDimension(unsigned int value){
 
-- 
2.43.0


From 6d0b4d3f5c6090689fdc1365cb59853c8fd09c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 05/40] fix: validation samples of a previous reading of the
 training data are kept

---
 src/SurrogateModels/surrogate_model_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 8d727d1..6c4aeb2 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -131,6 +131,7 @@ void SurrogateModelData::readData(string inputFilename){
 		numberOfSamples = rawData.getNRows();
 		indicesForValidationData = generateRandomIndicesForValidationData(numberOfSamples, ratioValidationData);
 
+		rawDataValidation.reset();
 		for (int idx : indicesForValidationData) {
 			vec validationSample = rawData.getRow(idx);
 			rawDataValidation.addRow(validationSample,-1);
-- 
2.43.0


From 501e7c19f2fe362c70cb6cde4d49a2b43bccc924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 06/40] fix: a failed factorization is the best possible
 validation error

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 72ee7f1..24daf26 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -638,7 +638,7 @@ double KrigingModel::calculateValidationErrorForGivenHyperparameters(vec hyperPa
 
 	// Check if the factorization of the correlation matrix was successful
 	if (!linearSystemCorrelationMatrix.isFactorizationDone()) {
-		return std::numeric_limits<double>::lowest(); // Return a large negative value if factorization fails
+		return std::numeric_limits<double>::max(); // Return a large value if factorization fails
 	}
 
 	return calculateValidationError();
-- 
2.43.0


From 4c1c099cbcf68d9945653f0e7dc21a2e7dfd4861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 07/40] fix: every training of the Kriging model reduces the
 number of training iterations

---
 src/SurrogateModels/kriging_training.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 24daf26..31fbf5c 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -734,8 +734,8 @@ void KrigingModel::train() {
 		ModelLogger::getInstance().log(INFO, "Number of generations = " + std::to_string(numberOfGenerations));
 		ModelLogger::getInstance().log(INFO, "Number of threads = " + std::to_string(numberOfThreads));
 
-		numberOfTrainingIterations = numberOfTrainingIterations / numberOfThreads;
-		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterations));
+		unsigned int numberOfIterationsPerThread = numberOfTrainingIterations / numberOfThreads;
+		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfIterationsPerThread));
 		vec bestSolution;
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(numberOfThreads);
@@ -752,7 +752,7 @@ void KrigingModel::train() {
 
 			parameterOptimizer.setInitialPopulationSize(initialPopulationSize);
 			parameterOptimizer.setMutationProbability(0.1);
-			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfTrainingIterations);
+			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfIterationsPerThread);
 
 
 			parameterOptimizer.setNumberOfGenerations(numberOfGenerations);
-- 
2.43.0


From dddd3101cc38285042416995952623b76d0e1948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 08/40] fix: validation samples are not used by a model with a
 warm start

---
 src/SurrogateModels/kriging_training.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 31fbf5c..45c4990 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -692,6 +692,10 @@ void KrigingModel::train() {
 
 	ModelLogger::getInstance().log(INFO, "Model training for the Kriging model started...");
 
+	if(ifHasValidationSamples){
+		setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
+	}
+
 	// Check if warm start file should be read
 	if (ifReadWarmStartFile) {
 		loadHyperParameters();
@@ -702,11 +706,6 @@ void KrigingModel::train() {
 			throw std::runtime_error("KrigingModel::train: Invalid dimension detected. The dimension must be set.");
 		}
 
-		if(ifHasValidationSamples){
-			setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
-		}
-
-
 		// Setting up bounds for hyperparameter optimization
 		vec lb(2 * dimension);
 		vec ub(2 * dimension);
-- 
2.43.0


From d6eb54f8db81c8c20792c3b90f8a0bbbf5594b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 09/40] fix: first child of the evolutionary algorithm has the
 ID of another individual

---
 src/InternalOptimizers/ea_optimizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index a0ddf54..0f197f5 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -292,8 +292,7 @@ EAIndividual  EAOptimizer::generateIndividualByReproduction(std::pair<EAIndividu
 	vec newGenes =  crossOver(parents);
 
 	child.setGenes(newGenes);
-	child.setId(totalNumberOfGeneratedIndividuals);
-	++totalNumberOfGeneratedIndividuals;
+	child.setId(++totalNumberOfGeneratedIndividuals);
 	return child;
 
 }
-- 
2.43.0


From c95059c61b12189bc443018f79ada019a70f3f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 10/40] fix: maximum of a population with negative objective
 function values

numeric_limits<double>::min() is the smallest positive number: a population
whose values are all negative had no worst individual.
---
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 2 +-
 src/InternalOptimizers/ea_population.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 05bab93..e99fee1 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -19,7 +19,7 @@ private:
 	std::vector<EAIndividual> population;
 
 	double populationMinimum = std::numeric_limits<double>::max();
-	double populationMaximum = std::numeric_limits<double>::min();
+	double populationMaximum = std::numeric_limits<double>::lowest();
 	unsigned int idPopulationMinimum = 0;
 	unsigned int idPopulationMaximum = 0;
 	unsigned int dimension = 0;
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 74c35d4..154bea6 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -347,7 +347,7 @@ void EAPopulation::updateMinAndMaxIfNecessary(double J, unsigned int id) {
 
 void EAPopulation::updatePopulationMinAndMax(void){
 
-	populationMaximum =  std::numeric_limits<double>::min();;
+	populationMaximum =  std::numeric_limits<double>::lowest();
 	populationMinimum =  std::numeric_limits<double>::max();;
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
 
-- 
2.43.0


From 6801a677362a8bd94ce8495b0a493ad4cf471f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 11/40] fix: minimum and maximum of a population that has been
 reset

They were kept by reset() and readFromCSV(), so that the best individual of
the next population could have an ID that is not in it.
---
 src/InternalOptimizers/ea_population.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 154bea6..9aae41b 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -174,6 +174,7 @@ void EAPopulation::print(void) const {
 void EAPopulation::reset(void){
 
 	population.clear();
+	updatePopulationMinAndMax();
 
 }
 
@@ -249,7 +250,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
-	population.clear();  // Clear any existing data
+	reset();  // Clear any existing data
 
 	std::string line;
 
-- 
2.43.0


From 04cd601c7cd85d1b3e704f45bc5b35acc2602d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 12/40] fix: design written for the external evaluation is
 rounded to six digits

---
 src/ObjectiveFunctions/objective_function.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 9f585ee..24f0758 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -38,6 +38,7 @@
 #include <algorithm>  // Include this for std::find
 #include <stdexcept>  // For std::invalid_argument
 #include <vector>
+#include <limits>
 #include <boost/process.hpp>
 
 #include "./INCLUDE/objective_function.hpp"
@@ -702,9 +703,14 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 	std::ofstream outputFileStream(definition.designVectorFilename);
 
 	if (!outputFileStream.is_open()) {
-		abort();
+		std::string msg = "There was a problem opening the design vector file: " + definition.designVectorFilename;
+		ObjectiveFunctionLogger::getInstance().log(ERROR, msg);
+		throw std::runtime_error(msg);
 	}
 
+	/* the evaluated design must be the proposed one, not a rounded one */
+	outputFileStream.precision(std::numeric_limits<double>::max_digits10);
+
 	for(unsigned int i=0; i<dim; i++) {
 
 		outputFileStream << d.designParameters(i) << std::endl;
-- 
2.43.0


From 08a911fa8cd01954e8fbcac6f96293764410f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 13/40] fix: saved hyperparameters are rounded to six digits

---
 src/LinearAlgebra/vector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index b2818f0..4d44a59 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -696,6 +696,9 @@ void vec::saveToCSV(const std::string& filename) const {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
+	/* the values must be the same when they are read again */
+	outFile.precision(std::numeric_limits<double>::max_digits10);
+
 	for (unsigned int i = 0; i < size; ++i) {
 		outFile << data[i];
 		if (i < size - 1) {
-- 
2.43.0


From b26b93e78270f0f2f30567971b89a8550ce580c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 14/40] fix: tangent sample of a constraint contains the
 direction of another constraint

---
 src/Design/design.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Design/design.cpp b/src/Design/design.cpp
index 2370ef8..7145eb2 100644
--- a/src/Design/design.cpp
+++ b/src/Design/design.cpp
@@ -264,7 +264,7 @@ vec Design::constructSampleConstraintWithTangent(unsigned int constraintID) cons
 	//	copyVectorFirstKElements(sample,designParameters, dimension);
 	sample(dimension) = constraintTrueValues(constraintID);
 	sample(dimension+1) = constraintTangent(constraintID);
-	vec direction = constraintDifferentiationDirectionsMatrix.getRow(ID);
+	vec direction = constraintDifferentiationDirectionsMatrix.getRow(constraintID);
 
 	for(unsigned int i=0; i<dimension; i++){
 		sample(dimension+2+i) = direction(i);
-- 
2.43.0


From 72288c18933b1583ab791581e848f6ee915eb0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 15/40] fix: values of a saved design are not separated

---
 src/Design/design.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Design/design.cpp b/src/Design/design.cpp
index 7145eb2..d95ed3b 100644
--- a/src/Design/design.cpp
+++ b/src/Design/design.cpp
@@ -605,12 +605,17 @@ void Design::saveToAFile(string filename) const{
 
 	ofstream fileOut;
 	fileOut.open (filename);
+
+	if (!fileOut.is_open()) {
+	    throw std::runtime_error("ERROR: Unable to open file: " + filename);
+	}
+
 	fileOut << tag<<"\n";
 	fileOut << "Design parameters vector:\n";
 
 	for(unsigned int i=0; i<designParameters.getSize(); i++){
 
-		fileOut << designParameters(i);
+		fileOut << designParameters(i) << "\n";
 	}
 
 
@@ -623,7 +628,7 @@ void Design::saveToAFile(string filename) const{
 
 		for(unsigned int i=0; i<constraintTrueValues.getSize(); i++){
 
-			fileOut << constraintTrueValues(i);
+			fileOut << constraintTrueValues(i) << "\n";
 		}
 
 	}
-- 
2.43.0


From 5c00c07f811f5c2db984fc7e8bc9975bdd1c7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 16/40] fix: crossed bounds are accepted by two of the
 overloads of setBounds

---
 src/InternalOptimizers/general_purpose_optimizer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/InternalOptimizers/general_purpose_optimizer.cpp b/src/InternalOptimizers/general_purpose_optimizer.cpp
index a9298c2..4629033 100644
--- a/src/InternalOptimizers/general_purpose_optimizer.cpp
+++ b/src/InternalOptimizers/general_purpose_optimizer.cpp
@@ -22,6 +22,9 @@ void GeneralPurposeOptimizer::setBounds(double lb, double ub) {
     if (dimension == 0) {
         throw std::invalid_argument("Dimension must be specified first.");
     }
+    if (!(ub > lb)) {
+        throw std::invalid_argument("Upper bound must be greater than lower bound.");
+    }
 
     lowerBounds.resize(dimension);
     lowerBounds.fill(lb);
@@ -39,6 +42,12 @@ void GeneralPurposeOptimizer::setBounds(std::vector<double> lb, std::vector<doub
         throw std::invalid_argument("Lower bound and upper bound vectors must match the dimension size.");
     }
 
+    for (unsigned int i = 0; i < dimension; i++) {
+        if (!(ub[i] > lb[i])) {
+            throw std::invalid_argument("Upper bounds must be greater than lower bounds.");
+        }
+    }
+
     lowerBounds.fromStdVector(lb);
     upperBounds.fromStdVector(ub);
 
-- 
2.43.0


From 027f7e88e4ac83dae0f77a9fb7bcf2e8f0db81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 17/40] fix: missing cells at the end of a line of a population
 file take the value of the last cell

---
 src/InternalOptimizers/ea_population.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 9aae41b..e7a0675 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -264,35 +264,30 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		std::string token;
 
 		// Read ID
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing ID value in CSV");
 		}
 		unsigned int id = std::stoi(token);
 		// Read objective function value
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing objective function value in CSV");
 		}
 		double objectiveFunctionValue = std::stod(token);
 
 		// Read fitness value
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing fitness value in CSV");
 		}
 		double fitnessValue = std::stod(token);
 
 		// Read reproduction probability
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing reproduction probability in CSV");
 		}
 		double reproductionProbability = std::stod(token);
 
 		// Read death probability
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing death probability in CSV");
 		}
 		double deathProbability = std::stod(token);
@@ -300,8 +295,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		// Read genes
 		std::vector<double> genes;
 		for (unsigned int i = 0; i < dimension; ++i) {
-			std::getline(ss, token, ',');
-			if (token.empty()) {
+			if (!std::getline(ss, token, ',') || token.empty()) {
 				throw std::runtime_error("Missing gene value in CSV");
 			}
 			genes.push_back(std::stod(token));
-- 
2.43.0


From 61bc4b884c1e4c445f2ad7c2df44266b5c6243a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 18/40] fix: lower and upper bounds of different sizes are
 accepted

---
 src/Bounds/bounds.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Bounds/bounds.cpp b/src/Bounds/bounds.cpp
index 6a83dcb..2836dc3 100644
--- a/src/Bounds/bounds.cpp
+++ b/src/Bounds/bounds.cpp
@@ -37,6 +37,10 @@ Bounds::Bounds(std::vector<double> lb, std::vector<double> ub) {
 
 Bounds::Bounds(vec lb, vec ub){
 
+	if (lb.getSize() != ub.getSize()) {
+		throw std::invalid_argument("Lower and upper bounds must have the same size.");
+	}
+
 	lowerBounds = lb;
 	upperBounds = ub;
 	dimension = lb.getSize();
@@ -86,6 +90,10 @@ void Bounds::setBounds(double lowerBound, double upperBound) {
 
 void Bounds::setBounds(std::vector<double> lb, std::vector<double> ub){
 
+	if (lb.size() != ub.size()) {
+		throw std::invalid_argument("Lower and upper bounds must have the same size.");
+	}
+
 	unsigned int size = lb.size();
 	lowerBounds.resize(size);
 	upperBounds.resize(size);
-- 
2.43.0


From 7bd5d0d2615ab840e2c00bccc9766f9d35b082e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 19/40] fix: setNameOfTrainingDataFile stores the name of the
 problem

---
 src/API/cppAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 06642be..a56ade5 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -113,7 +113,7 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 	if(filename.empty()){
 		throw std::invalid_argument("Empty file name for the training data");
 	}
-	objectiveFunctionTrainingFilename = name;
+	objectiveFunctionTrainingFilename = filename;
 }
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
-- 
2.43.0


From 5810ff9742f33ea21d19939856131f2246cd1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 20/40] fix: box constraints set twice have twice the dimension

---
 src/API/cppAPI.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index a56ade5..6c055bf 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -88,6 +88,9 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 		throw std::invalid_argument("Problem dimension is not specified");
 	}
 
+	lowerBounds.clear();
+	upperBounds.clear();
+
 	for(unsigned int i=0;i<dimension; i++){
 		if(lb[i] >= ub[i]){
 			throw std::invalid_argument("Box constraints are not set properly");
-- 
2.43.0


From f21f1462d750ac7d89502ed4e8bc0cb5dbd94182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 21/40] fix: samples of the design of experiments are rounded
 to six digits

---
 src/API/cppAPI.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 6c055bf..2440a14 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -6,6 +6,7 @@
 #include "../Bounds/INCLUDE/bounds.hpp"
 #include <filesystem>
 #include <algorithm>
+#include <limits>
 
 #if defined(_WIN32) || defined(_WIN64)
 #include <direct.h>
@@ -313,7 +314,7 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
 
         try {
             // Save all training data for this constraint at once, after collecting all rows
-            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint]);
+            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint], std::numeric_limits<double>::max_digits10);
         } catch (const std::exception& e) {
             std::cerr << "Error saving training data for constraint " << iConstraint
                       << " to file: " << e.what() << std::endl;
@@ -369,7 +370,7 @@ void RobustDesignOptimizer::performDoE(void) {
 
 		try {
 			// Save the training data
-			trainingData.saveAsCSV(objectiveFunctionTrainingFilename);
+			trainingData.saveAsCSV(objectiveFunctionTrainingFilename, std::numeric_limits<double>::max_digits10);
 		} catch (const std::exception &e) {
 			throw std::runtime_error("DoE process will be killed.");
 		}
-- 
2.43.0


From dd06b6821f105142ff6d8d5d3a847004e9050452 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 22/40] fix: name of the study in the configuration file is not
 used

---
 src/Driver/driver_xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 3e9eb5b..981b3d6 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -615,9 +615,9 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 void Driver::setNameOptimizationStudy() {
 	string name = getConfigKeyValueString(keywordsGeneral, "name");
 	if (name.empty()) {
-		optimizationStudy.setName(name);
-	} else {
 		optimizationStudy.setName("OptimizationStudy");
+	} else {
+		optimizationStudy.setName(name);
 	}
 }
 
-- 
2.43.0


From 7f6ddd70a7d8beaddb8284d34f72b9be220d8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 23/40] fix: a constraint takes the number of training
 iterations of the objective function

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 981b3d6..84f7ca7 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -318,7 +318,7 @@ void Driver::setConstraintUDF(ConstraintFunction &constraint) {
 void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constraint) {
 
 	int numberOfTrainingIterations = getConfigKeyValueInt(
-			keywordsObjectiveFunction, "number_of_training_iterations");
+			keywordsConstraintFunction, "number_of_training_iterations");
 
 	if(numberOfTrainingIterations != -10000000){
 
-- 
2.43.0


From 7083d3516ebb4dd961bd917138fb86bd697b8607 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 24/40] fix: constraint type TT is accepted as greater than

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 84f7ca7..63db874 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -270,7 +270,7 @@ void Driver::setConstraintType(ConstraintDefinition &constraintDefinition) {
 	if (isEqual(constraint_type, "lt") || isEqual(constraint_type, "LT")) {
 		constraintDefinition.inequalityType = "<";
 	} else if (isEqual(constraint_type, "gt")
-			|| isEqual(constraint_type, "TT")) {
+			|| isEqual(constraint_type, "GT")) {
 		constraintDefinition.inequalityType = ">";
 	} else {
 
-- 
2.43.0


From 10478f925802e65430775a68294e1ab2d98d0205 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 25/40] fix: missing bounds and increments of a parameter are
 replaced by 1e-13

---
 src/Driver/driver_xml.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 63db874..6f16c7a 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -506,6 +506,18 @@ void Driver::readOptimizationParameters() {
 		// Log the parameter being processed
 		DriverLogger::getInstance().log(INFO, "Processing parameter: " + name + " of type: " + type);
 
+		// Ensure that the values that have no default are given
+		std::vector<std::string> requiredKeys = {"lower_bound", "upper_bound"};
+		if (type == "discrete" || type == "int") {
+			requiredKeys.push_back("increment");
+		}
+		for (const auto &key : requiredKeys) {
+			if (getStringValueFromXML(param, key).empty()) {
+				DriverLogger::getInstance().log(ERROR, "'" + key + "' is missing or empty for parameter: " + name);
+				throw std::runtime_error("Driver::readOptimizationParameters: '" + key + "' is missing for parameter: " + name);
+			}
+		}
+
 		double lb = getDoubleValueFromXML(param, "lower_bound");
 		double ub = getDoubleValueFromXML(param, "upper_bound");
 
-- 
2.43.0


From 147aa4db53633183aa382bc235d6dd108359fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 26/40] fix: parts of a constraint in the configuration file
 are lost

---
 src/Driver/driver_xml.cpp | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 6f16c7a..bfd4516 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1049,44 +1049,17 @@ std::string Driver::readASegmentFromXMLFile(string keyword) const {
 
 
 std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
-	std::vector<std::string> constraintFunctions;
 	std::ifstream file(configFilename);
-	std::string line;
-	bool insideConstraintFunction = false;
-	std::string currentConstraintFunction;
 
 	// Check if the file was opened successfully
 	if (!file.is_open()) {
-		std::cerr << "Error opening file: " << configFilename << std::endl;
-		return constraintFunctions;
+		throw std::runtime_error("Failed to open file: " + configFilename);
 	}
 
-	// Read the file line by line
-	while (std::getline(file, line)) {
-		// Trim leading and trailing whitespaces from the line (if needed)
-		line.erase(0, line.find_first_not_of(" \t"));  // Left trim
-		line.erase(line.find_last_not_of(" \t") + 1);  // Right trim
-
-		// Start of a constraint function
-		if (line.find("<constraint_function>") != std::string::npos) {
-			insideConstraintFunction = true;
-			currentConstraintFunction.clear();
-		}
-
-		// End of a constraint function
-		if (line.find("</constraint_function>") != std::string::npos) {
-			insideConstraintFunction = false;
-			constraintFunctions.push_back(currentConstraintFunction);
-		}
-
-		// Collect lines inside the constraint function block
-		if (insideConstraintFunction) {
-			currentConstraintFunction += line + "\n";  // Preserve line breaks
-		}
-	}
+	std::stringstream buffer;
+	buffer << file.rdbuf();
 
-	file.close();  // Close the file when done
-	return constraintFunctions;
+	return extractContents(buffer.str(), "constraint_function");
 }
 
 void Driver::runOptimization(void) {
-- 
2.43.0


From 908d0fe1f2381c63958b039bc68d7a88f2a4a487 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 27/40] fix: a parameter or constraint without closing tag is
 dropped

---
 src/Driver/string_functions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Driver/string_functions.cpp b/src/Driver/string_functions.cpp
index 25e8b2d..d49a73c 100644
--- a/src/Driver/string_functions.cpp
+++ b/src/Driver/string_functions.cpp
@@ -134,8 +134,10 @@ std::vector<std::string> extractContents(const std::string& input, const std::st
 
             // Search for the next occurrence of startTag
             startPos = input.find(startTag, endPos + endTag.length());
+        } else if (input.find_first_not_of(" \t\r\n\v\f", startPos + startTag.length()) != std::string::npos) {
+            throw std::runtime_error("End tag not found for the key: " + key);
         } else {
-            break; // No matching endTag found, exit loop
+            break; // Nothing follows the last start tag
         }
     }
 
-- 
2.43.0


From 0644cee727c0ffb5ea00c51f14279971ab2c19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 28/40] fix: numbers in the configuration file are accepted in
 part

---
 src/Driver/driver_xml.cpp    |  6 +++++-
 src/Driver/xml_functions.cpp | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index bfd4516..1f8d6d8 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -292,7 +292,11 @@ void Driver::setConstraintValue(ConstraintDefinition &constraintDefinition) {
 	}
 	double value = 0.0;
 	try {
-		value = std::stod(constraint_value); // Attempt to convert string to double
+		size_t length = 0;
+		value = std::stod(constraint_value, &length); // Attempt to convert string to double
+		if (length != constraint_value.length()) {
+			throw std::invalid_argument(constraint_value);
+		}
 
 	} catch (const std::invalid_argument& e) {
 		throw std::invalid_argument("Invalid argument. Unable to convert string to double. Check configuration file");
diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index 2577bc8..cc8ed07 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -133,7 +133,11 @@ double getDoubleValueFromXML(const std::string& xmlString, const std::string& ke
 	double value;
 	try
 	{
-		value = std::stod(valueString);
+		size_t length = 0;
+		value = std::stod(valueString, &length);
+		if (length != valueString.length()) {
+			throw std::invalid_argument(valueString);
+		}
 	}
 	catch (...)
 	{
@@ -211,7 +215,11 @@ int getIntegerValueFromXML(const std::string& xmlString, const std::string& keyw
 
 	try
 	{
-		value = std::stoi(valueString);
+		size_t length = 0;
+		value = std::stoi(valueString, &length);
+		if (valueString.find_first_not_of(" \t\r\n", length) != std::string::npos) {
+			throw std::invalid_argument(valueString);
+		}
 	}
 	catch (...)
 	{
-- 
2.43.0


From cde909efd594dd6c812ec4d54d90ce46790180c9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 29/40] fix: negative numbers in the configuration file become
 huge

---
 src/Driver/driver_xml.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 1f8d6d8..05cab17 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -214,6 +214,10 @@ void Driver::setObjectiveFunctionNumberOfTrainingIterations() {
 
 	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
 
+		if (numberOfTrainingIterations < 0) {
+			throw std::invalid_argument(
+					"number of training iterations must not be negative. Check configuration file");
+		}
 		objectiveFunction.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 	}
@@ -326,6 +330,10 @@ void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constra
 
 	if(numberOfTrainingIterations != -10000000){
 
+		if (numberOfTrainingIterations < 0) {
+			throw std::invalid_argument(
+					"number of training iterations must not be negative. Check configuration file");
+		}
 		constraint.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 
@@ -611,6 +619,10 @@ void Driver::setMaxNumberOfInnerIterationsOptimizationStudy(void) {
 	int maxiter = getConfigKeyValueInt(keywordsGeneral, "max_number_of_inner_iterations");
 
 	if(maxiter != -10000000){
+		if (maxiter < 0) {
+			throw std::invalid_argument(
+					"maximum number of inner iterations must not be negative. Check configuration file");
+		}
 		optimizationStudy.setMaximumNumberOfInnerIterations(maxiter);
 	}
 
@@ -623,6 +635,10 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 
 	if(N != -10000000){
 
+		if (N < 0) {
+			throw std::invalid_argument(
+					"number of threads must not be negative. Check configuration file");
+		}
 		optimizationStudy.setNumberOfThreads(N);
 	}
 
-- 
2.43.0


From 01209aaf1cec8af3d104452db8d23d177d6f5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 30/40] fix: test data without outputs keeps the outputs of
 earlier test data

---
 src/SurrogateModels/surrogate_model_data.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 6c4aeb2..de54b92 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -230,6 +230,8 @@ void SurrogateModelData::readDataTest(string inputFilename) {
 	} else if (XrawTest.getNCols() == dimension) {
 		// Data contains only input values
 		XTest = XrawTest;
+		yTest.reset();
+		ifTestDataHasFunctionValues = false;
 	} else {
 		// Invalid number of columns
 		throw std::runtime_error("Problem with test data (CSV format): incorrect number of columns in file: " + inputFilename);
-- 
2.43.0


From 995057ad7758f6b36e9d6855d82bdb6ad02ee3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 31/40] fix: header of the test results grows with every save

---
 src/SurrogateModels/surrogate_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index a4a3d23..452c422 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -256,6 +256,8 @@ double SurrogateModel::calculateOutSampleError(void){
 
 void SurrogateModel::writeFileHeaderForTestResults() {
 
+	testResultsFileHeader.clear();
+
 	unsigned int dim = data.getDimension();
 	for (unsigned int i = 0; i < dim; i++) {
 		string variableName = "x" + std::to_string(i + 1);
-- 
2.43.0


From 71f6c8cabcae40b63bfcdc26bfcb653d1f127042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 32/40] fix: validation samples of an earlier read stay when
 none are asked for

---
 src/SurrogateModels/surrogate_model_data.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index de54b92..946b667 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -127,11 +127,14 @@ void SurrogateModelData::readData(string inputFilename){
 
 	ModelLogger::getInstance().log(INFO, "Ratio for validation samples: " + std::to_string(ratioValidationData) );
 
+	numberOfValidationSamples = 0;
+	indicesForValidationData.clear();
+	rawDataValidation.reset();
+
 	if(ratioValidationData>0){
 		numberOfSamples = rawData.getNRows();
 		indicesForValidationData = generateRandomIndicesForValidationData(numberOfSamples, ratioValidationData);
 
-		rawDataValidation.reset();
 		for (int idx : indicesForValidationData) {
 			vec validationSample = rawData.getRow(idx);
 			rawDataValidation.addRow(validationSample,-1);
-- 
2.43.0


From c7bf0f356a01817ca0f0ded7f9f0197161c665c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 33/40] fix: models are never retrained when they should be in
 every iteration

---
 src/Optimizers/efficient_global_optimization.cpp | 2 +-
 src/Optimizers/optimization_setter_getters.cpp   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/efficient_global_optimization.cpp b/src/Optimizers/efficient_global_optimization.cpp
index a0ad649..d4bc63f 100644
--- a/src/Optimizers/efficient_global_optimization.cpp
+++ b/src/Optimizers/efficient_global_optimization.cpp
@@ -15,7 +15,7 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 		printIterationNumber();
 
 
-		if(outerIterationNumber%howOftenTrainModels == 1) {
+		if((outerIterationNumber - 1)%howOftenTrainModels == 0) {
 			initializeSurrogates();
 			trainSurrogates();
 		}
diff --git a/src/Optimizers/optimization_setter_getters.cpp b/src/Optimizers/optimization_setter_getters.cpp
index a264f3f..87d8263 100644
--- a/src/Optimizers/optimization_setter_getters.cpp
+++ b/src/Optimizers/optimization_setter_getters.cpp
@@ -109,6 +109,9 @@ void Optimizer::setDimension(unsigned int dim){
 
 
 void Optimizer::setHowOftenTrainModels(unsigned int value){
+	if (value == 0) {
+		throw std::invalid_argument("Models must be trained at least once in a number of iterations greater than 0.");
+	}
 	howOftenTrainModels = value;
 }
 
-- 
2.43.0


From c14564968a11ab381c8c7e17fcd4aeab47b4373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 34/40] fix: first enlargement of the trust region makes it
 smaller

---
 src/Optimizers/optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 14ec508..1fd28bb 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -62,7 +62,8 @@ void Optimizer::initializeOptimizerSettings(void) {
 	iterGradientEILoop = 100;
 	improvementPercentThresholdForGradientStep = 5;
 
-	trLengthMax = 1.0/dimension;
+	/* trLength is relative to 1.0/dimension, see defineTrustRegion */
+	trLengthMax = 1.0;
 	trLengthMin = pow(0.5,8)*trLengthMax;
 }
 
-- 
2.43.0


From ce79ecdcdf250d403c84d113f83e88e68dc63543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 35/40] fix: model tester accepts any ratio of validation
 samples

---
 src/SurrogateModels/surrogate_model_tester.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/surrogate_model_tester.cpp b/src/SurrogateModels/surrogate_model_tester.cpp
index 66c3eba..986ebac 100644
--- a/src/SurrogateModels/surrogate_model_tester.cpp
+++ b/src/SurrogateModels/surrogate_model_tester.cpp
@@ -38,10 +38,13 @@ void SurrogateModelTester::setSurrogateModel(SURROGATE_MODEL modelType){
 
 void SurrogateModelTester::setRatioValidationSamples(double value){
 
-	if(value<0 && value > 1.0){
+	if(value<0 || value > 1.0){
 		ModelLogger::getInstance().log(ERROR, "Model Tester: Validation samples ration is not valid.");
 		throw std::invalid_argument("Model Tester: Validation samples ration is not valid.");
 	}
+	if (!ifbindSurrogateModelisDone) {
+		throw std::runtime_error("Model Tester: Surrogate model must be bound first.");
+	}
 	surrogateModel->setRatioValidationSamples(value);
 }
 
-- 
2.43.0


From 88868045697bd876af4887d82bb488c8f70d7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 36/40] fix: a resized linear system keeps the state of the old
 one

---
 src/LinearAlgebra/linear_solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinearAlgebra/linear_solver.cpp b/src/LinearAlgebra/linear_solver.cpp
index 1645c7e..ff2f054 100644
--- a/src/LinearAlgebra/linear_solver.cpp
+++ b/src/LinearAlgebra/linear_solver.cpp
@@ -43,6 +43,8 @@ CholeskySystem::CholeskySystem(unsigned dim){
 void CholeskySystem::setDimension(unsigned dim){
 
 	dimension = dim;
+	ifMatrixIsSet = false;
+	ifFactorizationIsDone = false;
 
 	A.reset();
 	factorizationMatrix.reset();
@@ -170,6 +172,8 @@ void LUSystem::setDimension(unsigned int dim){
 	}
 
 	dimension = dim;
+	ifMatrixIsSet = false;
+	ifFactorizationIsDone = false;
 
 	A.reset();
 	factorizationMatrix.reset();
-- 
2.43.0


From 3c57bfa1614ba7a6c362d4711c090273dd84e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 37/40] fix: identity matrix keeps its old entries off the
 diagonal

---
 src/LinearAlgebra/matrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 72446ac..49d64eb 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -546,6 +546,7 @@ void mat::eye(){
 	if (nrows  != ncols ) {
 		throw std::invalid_argument("mat::eye: Matrix must be square.");
 	}
+	fill(0.0);
 	for (unsigned int row = 0; row < nrows; ++row) {
 		matrix[row * nrows + row] = 1.0;
 
-- 
2.43.0


From f414dc1e8953222bbdf0d6948fdca1c94f4c5f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 38/40] fix: the last value of a vector belongs to no interval

---
 src/LinearAlgebra/vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 4d44a59..02ba629 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -921,7 +921,7 @@ int vec::findInterval(double value) const {
 		}
 	}
 
-	if (value > data[size - 1]) {
+	if (value >= data[size - 1]) {
 		return size - 1;
 	}
 
-- 
2.43.0


From b233c3e2b4a3cbf9cfd37f0b0da595adcb631a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 39/40] fix: crowding of a short history looks at one row only

---
 src/Optimizers/optimization_history.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization_history.cpp b/src/Optimizers/optimization_history.cpp
index 91b2b47..5266e60 100644
--- a/src/Optimizers/optimization_history.cpp
+++ b/src/Optimizers/optimization_history.cpp
@@ -287,7 +287,7 @@ void OptimizationHistory::calculateCrowdingFactor() {
 	if (data.getNRows() >= numberOfDoESamples) {
 		dataToProcess = data.submat(data.getNRows() - numberOfDoESamples, data.getNRows() - 1, 0, dimension - 1);
 	} else {
-		dataToProcess = data.submat(0, 0, data.getNRows() - 1, dimension - 1);
+		dataToProcess = data.submat(0, data.getNRows() - 1, 0, dimension - 1);
 	}
 
 	double sum = 0.0;
-- 
2.43.0


From df29296fe37b314ebb495851a28af8376d8fd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:41 +0000
Subject: [PATCH 40/40] fix: reject positions outside a matrix in addRow,
 addColumn, deleteRow, getRow and getCol

---
 src/LinearAlgebra/matrix.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 49d64eb..0bd5735 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -196,7 +196,7 @@ void mat::addRow(const vec& rowVec, int position) {
 		ncols = rowVec.getSize();
 	}
 
-	if (position > static_cast<int>(nrows)) {
+	if (position < 0 || position > static_cast<int>(nrows)) {
 		throw std::invalid_argument("Position out of range.");
 	}
 	if (rowVec.getSize() != ncols) {
@@ -240,7 +240,7 @@ void mat::addColumn(const vec& colVec, int position) {
 	}
 
 
-	if (position > static_cast<int>(ncols)) {
+	if (position < 0 || position > static_cast<int>(ncols)) {
 		throw std::invalid_argument("Position out of range.");
 	}
 	if (colVec.getSize() != nrows) {
@@ -282,7 +282,7 @@ void mat::deleteRow(int rowIndex) {
 		rowIndex = nrows-1;
 	}
 
-	if (rowIndex >= static_cast<int>(nrows)) {
+	if (rowIndex < 0 || rowIndex >= static_cast<int>(nrows)) {
 		throw std::out_of_range("Row index out of range.");
 	}
 
@@ -564,7 +564,10 @@ vec mat::getCol(int colIndex) const {
 	}
 
 	if(colIndex == -1){
-		colIndex = ncols-1;
+		colIndex = static_cast<int>(ncols)-1;
+	}
+	if (colIndex < 0) {
+		throw std::out_of_range("Column index out of range.");
 	}
 
 	vec column(nrows);
@@ -599,7 +602,10 @@ vec mat::getRow(int rowIndex) const {
 	}
 
 	if(rowIndex == -1){
-		rowIndex = nrows-1;
+		rowIndex = static_cast<int>(nrows)-1;
+	}
+	if (rowIndex < 0) {
+		throw std::out_of_range("mat::getRow: Row index out of range.");
 	}
 
 	vec row(ncols);
-- 
2.43.0

