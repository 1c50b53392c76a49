From 82e495405449ad5688be3a7882f1980f690f2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 01/27] fix: count every channel in the number of outputs of
 MaxPooling1D

---
 src/neural_network/layer/LayerFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 0e158ae..d3460ac 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -28,7 +28,7 @@ int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& sha
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return ((shapeOfInput[X] / kernelSize) + rest);
+    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + rest);
 }
 
 inline
-- 
2.43.0


From c4e167a8159e8273cd7c1b1f347d03a6d4e38820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 02/27] fix: use the output width to locate the kernels of
 LocallyConnected2D and MaxPooling2D

---
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 src/neural_network/layer/MaxPooling2D.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index 9064ada..f756674 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -31,7 +31,7 @@ void LocallyConnected2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = k % this->shapeOfOutput[X];
-        const int kernelPosY = k / this->shapeOfOutput[Y];
+        const int kernelPosY = k / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 53998eb..6add766 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -35,7 +35,7 @@ void MaxPooling2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = (k / maxC) % this->shapeOfOutput[X];
-        const int kernelPosY = (k / maxC) / this->shapeOfOutput[Y];
+        const int kernelPosY = (k / maxC) / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From 53521465ec73c287f1fed782c5cbde7fafae4df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 03/27] fix: reject layers with a non-positive kernel size,
 number of filters or input dimension

---
 src/neural_network/layer/LayerFactory.cpp | 26 ++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index d3460ac..0545179 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -19,10 +19,27 @@ int computeNumberOfInputs(const vector<int>& shapeOfInput)
 {
     int numberOfInputs = 1;
     for (auto size : shapeOfInput)
+    {
+        if (size <= 0)
+            throw InvalidArchitectureException("Input of layer has size of 0.");
+        if (size > 2073600 / numberOfInputs)
+            throw InvalidArchitectureException("Layer is too big.");
         numberOfInputs *= size;
+    }
     return numberOfInputs;
 }
 
+inline
+void checkFilters(const LayerModel& model)
+{
+    if (model.kernelSize <= 0)
+        throw InvalidArchitectureException("Kernel size must be at least 1.");
+    if (model.numberOfFilters <= 0)
+        throw InvalidArchitectureException("Number of filters must be at least 1.");
+    if (model.numberOfFilters > 1000000)
+        throw InvalidArchitectureException("Layer is too big.");
+}
+
 inline
 int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& shapeOfInput)
 {
@@ -120,6 +137,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         return make_unique<GruLayer>(model, optimizer);
 
     case maxPooling:
+        checkFilters(model);
         if (shapeOfInput.size() == 1)
         {
             shapeOfInput = {1, shapeOfInput[0]};
@@ -154,6 +172,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         break;
 
     case locallyConnected:
+        checkFilters(model);
         if (shapeOfInput.size() == 1)
         {
             shapeOfInput = { 1, shapeOfInput[0] };
@@ -199,6 +218,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         break;
 
     case convolution:
+        checkFilters(model);
         if (shapeOfInput.size() == 1)
         {
             shapeOfInput = { 1, shapeOfInput[0] };
@@ -262,11 +282,7 @@ void LayerFactory::build(vector<unique_ptr<BaseLayer>>& layers,
     if (models.size() < 2)
         throw InvalidArchitectureException("Neural Network must have at least 1 layer.");
 
-    int numberOfInputs = 1;
-    for (auto size : models[0].shapeOfInput)
-        numberOfInputs *= size;
-    if (numberOfInputs > 2073600)
-        throw InvalidArchitectureException("Layer is too big.");
+    computeNumberOfInputs(models[0].shapeOfInput);
 
     auto& currentShapeOfInput = models[0].shapeOfInput;
     for (size_t i = 1; i < models.size(); ++i)
-- 
2.43.0


From 32730e848be8b66a4046eec42802ec172287487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 04/27] fix: take the number of outputs of a network from the
 output shape of its last layer

---
 src/neural_network/NeuralNetwork.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index b4ba4f1..58979ad 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -14,7 +14,7 @@ NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOpti
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
     LayerFactory::build(this->layers, architecture, this->optimizer);
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
@@ -26,7 +26,7 @@ NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
     this->layers.reserve(neuralNetwork.layers.size());
     for (const auto& layer : neuralNetwork.layers)
         this->layers.push_back(layer->clone(this->optimizer));
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 
@@ -100,7 +100,7 @@ void NeuralNetwork::backpropagationAlgorithm(const vector<float>& inputs, const
 inline
 vector<float> NeuralNetwork::calculateError(const vector<float>& outputs, const vector<float>& desired) const
 {
-    vector<float> errors(this->layers.back()->getNumberOfNeurons(), 0);
+    vector<float> errors(this->getNumberOfOutputs(), 0);
     for (size_t n = 0; n < errors.size(); ++n)
     {
         errors[n] = 2 * (desired[n] - outputs[n]);
@@ -144,7 +144,10 @@ int NeuralNetwork::getNumberOfInputs() const
 
 int NeuralNetwork::getNumberOfOutputs() const
 {
-    return this->layers.back()->getNumberOfNeurons();
+    int numberOfOutputs = 1;
+    for (const auto size : this->layers.back()->getShapeOfOutput())
+        numberOfOutputs *= size;
+    return numberOfOutputs;
 }
 
 int NeuralNetwork::getNumberOfNeurons() const
-- 
2.43.0


From 8721cddfb9516547c3499340be861dbaa8c2c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/27] fix: add the update to the bias weight of simple
 neurons instead of replacing the weight

---
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 45971f0..59389c3 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -34,7 +34,7 @@ void StochasticGradientDescent::updateWeights(SimpleNeuron& neuron, const float
         neuron.weights[w] += deltaWeights[w];
     }
     deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] = deltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
 }
 
-- 
2.43.0


From 3db6ed32df749e19c5c39701a3ff56215ead204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 06/27] fix: keep the best F1 score and the best root mean
 squared error

---
 src/neural_network/StatisticAnalysis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 357d477..5fa7ef0 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -62,15 +62,15 @@ void StatisticAnalysis::stopTesting()
 
     this->f1ScoreIsBetterThanMax = newF1Score > this->f1ScoreMax;
     if (this->f1ScoreIsBetterThanMax)
-        this->f1Score = newF1Score;
+        this->f1ScoreMax = newF1Score;
 
     this->meanAbsoluteErrorIsBetterThanMin = newMeanAbsoluteError < this->meanAbsoluteErrorMin || this->meanAbsoluteErrorMin < 0;
     if (this->meanAbsoluteErrorIsBetterThanMin)
         this->meanAbsoluteErrorMin = newMeanAbsoluteError;
 
-    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->meanAbsoluteErrorMin < 0;
+    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->rootMeanSquaredErrorMin < 0;
     if (this->rootMeanSquaredErrorIsBetterThanMin)
-        this->rootMeanSquaredErrorMin = newMeanAbsoluteError;
+        this->rootMeanSquaredErrorMin = newRootMeanSquaredError;
 
     this->globalClusteringRate = newGlobalClusteringRate;
     this->weightedClusteringRate = newWeightedClusteringRate;
-- 
2.43.0


From af95e27b0ed985b60b3d3811a17050cc48090314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 07/27] fix: find the class with the highest output even when
 every output is low

---
 src/neural_network/StatisticAnalysis.cpp            | 2 +-
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 5fa7ef0..7a585b6 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -154,7 +154,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
 
     for (int i = 0; i < (int)clusters.size(); i++)
     {
-        if (maxOutputValue < outputs[i])
+        if (maxOutputIndex == -1 || maxOutputValue < outputs[i])
         {
             maxOutputValue = outputs[i];
             maxOutputIndex = i;
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d9e7f71..23a9151 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -54,7 +54,7 @@ int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bo
     int maxOutputIndex = -1;
     for (int i = 0; i < (int)outputs.size(); i++)
     {
-        if (maxOutputValue < outputs[i])
+        if (maxOutputIndex == -1 || maxOutputValue < outputs[i])
         {
             maxOutputValue = outputs[i];
             maxOutputIndex = i;
-- 
2.43.0


From 167036275071de95ad4ecfd412652453b43d0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 08/27] fix: reject data sets whose numbers of inputs and
 labels differ or that are empty

---
 src/data/Data.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 0ab97fd..a11e885 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -99,6 +99,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
                       vector<vector<float>>& testingInputs,
                       vector<vector<float>>& testingLabels)
 {
+    if (trainingInputs.empty() || trainingLabels.empty())
+        throw runtime_error("Training data cannot be empty.");
+
     this->precision = 0.1f;
     this->separator = 0.5f;
     this->sets[training].inputs = trainingInputs;
@@ -273,9 +276,9 @@ int Data::isValid()
         return 403;
 
     if (this->sets[training].size != (int)this->sets[training].inputs.size()
-        && this->sets[training].size != (int)this->sets[training].labels.size()
-        && this->sets[testing].size != (int)this->sets[training].inputs.size()
-        && this->sets[testing].size != (int)this->sets[training].labels.size())
+        || this->sets[training].size != (int)this->sets[training].labels.size()
+        || this->sets[testing].size != (int)this->sets[testing].inputs.size()
+        || this->sets[testing].size != (int)this->sets[testing].labels.size())
         return 405;
 
     int err = this->problemComposite->isValid();
-- 
2.43.0


From bb937827d18e5aa94b1a26de699ff757f619a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 09/27] fix: reject data whose rows have different sizes

---
 src/data/Data.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index a11e885..4fbadd6 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -281,6 +281,16 @@ int Data::isValid()
         || this->sets[testing].size != (int)this->sets[testing].labels.size())
         return 405;
 
+    for (const auto& set : this->sets)
+    {
+        for (const auto& input : set.inputs)
+            if (static_cast<int>(input.size()) != this->sizeOfData)
+                return 407;
+        for (const auto& label : set.labels)
+            if (static_cast<int>(label.size()) != this->numberOfLabels)
+                return 408;
+    }
+
     int err = this->problemComposite->isValid();
     if (err != 0)
         return err;
-- 
2.43.0


From 7eef1054696492d455026a9f73185dccdd405b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 10/27] fix: reject empty temporal sequences

---
 src/data/Data.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 4fbadd6..bc3521f 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -174,6 +174,8 @@ void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("Temporal sequences cannot be empty.");
         ranges::move(v, back_inserter(this->sets[set].inputs));
 
         this->sets[set].areFirstDataOfTemporalSequence[i] = true;
@@ -201,6 +203,8 @@ void Data::flatten(vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("Temporal sequences cannot be empty.");
         ranges::move(v, back_inserter(this->sets[training].inputs));
 
         this->sets[training].areFirstDataOfTemporalSequence[i] = true;
-- 
2.43.0


From 9f6f5795834d7f904ca44d0632ab13a348972e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 11/27] fix: do not write out of bounds when a time series is
 shorter than the recurrences

---
 src/data/CompositeForTimeSeries.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index 22fa3b8..fac6587 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -35,12 +35,12 @@ void CompositeForTimeSeries::shuffle()
 {
     ranges::shuffle(this->indexesForShuffling, tools::rng);
 
-    for (int i = this->sets[training].size - (this->numberOfRecurrences + 1); i < this->sets[training].size; ++i)
+    for (int i = std::max(0, this->sets[training].size - (this->numberOfRecurrences + 1)); i < this->sets[training].size; ++i)
     {
         this->sets[training].needToTrainOnData[i] = false;
     }
 
-    for (int i = 0; i < offset; ++i)
+    for (int i = 0; i < std::min(offset, this->sets[training].size); ++i)
     {
         this->sets[training].shuffledIndexes[i] = i;
         this->sets[training].needToTrainOnData[i] = true;
-- 
2.43.0


From 8641154efb79d7d95ba90816ec26e4b7831bbfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 12/27] fix: normalize constant columns to the lower bound

---
 src/data/Data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index bc3521f..8f2254c 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -245,14 +245,16 @@ void Data::normalize(const float min, const float max)
 
             for (size_t i = 0; i < inputsTraining.size(); i++)
             {
+                inputsTraining[i][j] -= minValueOfVector;
                 if (difference != 0)
-                    inputsTraining[i][j] = (inputsTraining[i][j] - minValueOfVector) / difference;
+                    inputsTraining[i][j] /= difference;
                 inputsTraining[i][j] = inputsTraining[i][j] * (max - min) + min;
             }
             for (size_t i = 0; i < inputsTesting.size(); i++)
             {
+                inputsTesting[i][j] -= minValueOfVector;
                 if (difference != 0)
-                    inputsTesting[i][j] = (inputsTesting[i][j] - minValueOfVector) / difference;
+                    inputsTesting[i][j] /= difference;
                 inputsTesting[i][j] = inputsTesting[i][j] * (max - min) + min;
             }
         }
-- 
2.43.0


From 1877afb148edee1cdf201b73be42fe44947a6aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 13/27] fix: combine the mean absolute errors of two waits with
 && like the other criteria

---
 src/neural_network/Wait.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 36d7eaf..f5fa7c2 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -44,12 +44,11 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.duration > 0)
+    if (this->mae >= 0 && wait.mae >= 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
 
-    this->mae = min(this->mae, wait.mae);
     this->duration = max(this->duration, wait.duration);
 
     return *this;
-- 
2.43.0


From b081053bbe2aa9498ae49e3b1682af1f13022a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 14/27] fix: keep a criterion of 0 when waits are combined with
 ||

---
 src/neural_network/Wait.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index f5fa7c2..802e89a 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -14,19 +14,19 @@ Wait& Wait::operator||(const Wait& wait)
 
     this->op = waitOperator::orOp;
 
-    if (this->epochs > 0 && wait.epochs > 0)
+    if (this->epochs >= 0 && wait.epochs >= 0)
         this->epochs = min(this->epochs, wait.epochs);
     else
         this->epochs = max(this->epochs, wait.epochs);
 
-    if (this->accuracy > 0 && wait.accuracy > 0)
+    if (this->accuracy >= 0 && wait.accuracy >= 0)
         this->accuracy = min(this->accuracy, wait.accuracy);
     else
         this->accuracy = max(this->accuracy, wait.accuracy);
 
     this->mae = max(this->mae, wait.mae);
 
-    if (this->duration > 0 && wait.duration > 0)
+    if (this->duration >= 0 && wait.duration >= 0)
         this->duration = min(this->duration, wait.duration);
     else
         this->duration = max(this->duration, wait.duration);
-- 
2.43.0


From 7f50133553a94dc3754b1fa068c705c2bc757147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 15/27] fix: compare the number of optimizers of two layers

---
 include/snn/neural_network/layer/Layer.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/snn/neural_network/layer/Layer.tpp b/include/snn/neural_network/layer/Layer.tpp
index 8098297..943aba8 100644
--- a/include/snn/neural_network/layer/Layer.tpp
+++ b/include/snn/neural_network/layer/Layer.tpp
@@ -134,6 +134,7 @@ bool Layer<N>::operator==(const BaseLayer& layer) const
         return typeid(*this).hash_code() == typeid(layer).hash_code()
             && this->numberOfInputs == l.numberOfInputs
             && this->neurons == l.neurons
+            && this->optimizers.size() == l.optimizers.size()
             && [this, &l]()
             {
                 for (size_t o = 0; o < this->optimizers.size(); ++o)
-- 
2.43.0


From aa0c337b1783299adc95b438c1535d790435c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 16/27] fix: invert flatten with the quotient in roughenZ

---
 include/snn/tools/Tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 11db1d5..906c1b6 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -195,6 +195,6 @@ namespace snn::tools
 
     constexpr int roughenZ(const int index, const int maxX, const int maxY)
     {
-        return index % (maxX * maxY);
+        return index / (maxX * maxY);
     }
 }
-- 
2.43.0


From b0457ea4f810478a0fa03534caaaf02e4774e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 17/27] fix: accept vectors of one element in getMinValue and
 getMaxValue

---
 include/snn/tools/Tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 906c1b6..b1d5358 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -68,7 +68,7 @@ namespace snn::tools
     template <typename T>
     static T getMinValue(std::vector<T> vector)
     {
-        if (vector.size() > 1)
+        if (!vector.empty())
         {
             T minValue = vector[0];
 
@@ -87,7 +87,7 @@ namespace snn::tools
     template <typename T>
     static T getMaxValue(std::vector<T> vector)
     {
-        if (vector.size() > 1)
+        if (!vector.empty())
         {
             T maxValue = vector[0];
 
-- 
2.43.0


From 749159afe523f945ad0211ba7cefc1b5f91af1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 18/27] fix: compare the counters of two binary classifications

---
 include/snn/neural_network/StatisticAnalysis.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 4a77a70..4cc33cc 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -12,10 +12,7 @@ namespace snn::internal
         float falseNegative{};
         float totalError{};
 
-        bool operator==(const binaryClassification&) const
-        {
-            return true;
-        };
+        bool operator==(const binaryClassification&) const = default;
 
         template <typename Archive>
         void serialize(Archive& ar, unsigned)
-- 
2.43.0


From e9212f06dd8e3dfd2823b9fa395da9503f67dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 19/27] fix: apply dropout to every output of a filter layer

---
 src/neural_network/optimizer/Dropout.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/Dropout.cpp b/src/neural_network/optimizer/Dropout.cpp
index 4e41804..264c28b 100644
--- a/src/neural_network/optimizer/Dropout.cpp
+++ b/src/neural_network/optimizer/Dropout.cpp
@@ -36,7 +36,9 @@ unique_ptr<LayerOptimizer> Dropout::clone(const BaseLayer* newLayer) const
 
 void Dropout::applyAfterOutputForTraining(std::vector<float>& outputs, bool temporalReset)
 {
-    if (temporalReset)
+    const bool hasOtherSize = this->presenceProbabilities.size() != outputs.size();
+    this->presenceProbabilities.resize(outputs.size());
+    if (temporalReset || hasOtherSize)
         std::generate(this->presenceProbabilities.begin(),
                       this->presenceProbabilities.end(),
                       [&] { return dist(tools::rng) >= this->value; });
-- 
2.43.0


From 31283e5dd0a8994fecf162d0db728222717585da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 20/27] fix: add the linear term of the improved sigmoid to its
 derivative

---
 .../layer/neuron/activation_function/ImprovedSigmoid.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
index bc195ce..c09b1b7 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
@@ -26,7 +26,7 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return std::exp(x) / powf((std::exp(x) + 1.0f), 2);
+            return std::exp(x) / powf((std::exp(x) + 1.0f), 2) + 0.05f;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 390f27711dc525a9f80b4a095c0cddacd120d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 21/27] fix: train every kernel position when a convolution is
 the first layer

---
 src/neural_network/layer/Convolution1D.cpp | 5 +++--
 src/neural_network/layer/Convolution2D.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/Convolution1D.cpp b/src/neural_network/layer/Convolution1D.cpp
index f5cb6d9..1bba810 100644
--- a/src/neural_network/layer/Convolution1D.cpp
+++ b/src/neural_network/layer/Convolution1D.cpp
@@ -126,8 +126,9 @@ vector<float> Convolution1D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution1D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (int n = 0; n < this->numberOfFilters; ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (size_t n = 0; n < this->neurons.size(); ++n, ++i)
+            this->neurons[n].train(inputErrors[i]);
 }
 bool Convolution1D::operator==(const BaseLayer& layer) const
 {
diff --git a/src/neural_network/layer/Convolution2D.cpp b/src/neural_network/layer/Convolution2D.cpp
index 0492c99..861ffef 100644
--- a/src/neural_network/layer/Convolution2D.cpp
+++ b/src/neural_network/layer/Convolution2D.cpp
@@ -134,8 +134,9 @@ vector<float> Convolution2D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution2D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (size_t n = 0; n < this->neurons.size(); ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (size_t n = 0; n < this->neurons.size(); ++n, ++i)
+            this->neurons[n].train(inputErrors[i]);
 }
 inline
 bool Convolution2D::operator==(const BaseLayer& layer) const
-- 
2.43.0


From 6ea8aca04f720a46ae8ea8e6f2880575199ac950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 22/27] fix: refuse mixed || and && operators on the right
 operand of a Wait

---
 src/neural_network/Wait.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 802e89a..1ae0226 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -9,7 +9,7 @@ using namespace snn;
 
 Wait& Wait::operator||(const Wait& wait)
 {
-    if (op == waitOperator::andOp)
+    if (this->op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::orOp;
@@ -36,7 +36,7 @@ Wait& Wait::operator||(const Wait& wait)
 
 Wait& Wait::operator&&(const Wait& wait)
 {
-    if (op == waitOperator::orOp)
+    if (this->op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::andOp;
-- 
2.43.0


From 79af4d2d7274ae45fde0cdf8936940f04dbce373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 23/27] fix: a reached accuracy or error of exactly zero counts
 for waitFor

---
 src/neural_network/Wait.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 1ae0226..250e935 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -66,8 +66,8 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(system_clock::now() - this->start).count());
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
-    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
-    const bool isValidMae = currentMae <= this->mae && currentMae > 0;
+    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy >= 0;
+    const bool isValidMae = currentMae <= this->mae && currentMae >= 0;
     const bool isValidDuration = currentDuration >= this->duration;
 
     if (this->op == waitOperator::andOp)
-- 
2.43.0


From 602811d6e3ff554103fad1053c20bf6b3af59f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 24/27] fix: measure absolute errors as real numbers, not
 truncated to integers

---
 src/neural_network/StatisticAnalysis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 7a585b6..1f2f152 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -105,7 +105,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -139,7 +139,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -161,7 +161,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].totalError += std::abs(1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -174,7 +174,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].totalError += std::abs(0 - outputs[i]);
 
             if (outputs[i] > separator)
             {
-- 
2.43.0


From dddae51f531b7d43569cd6c8f3ea921fa23bc282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 25/27] fix: keep the summed errors of the statistics when a
 network is saved

---
 include/snn/neural_network/StatisticAnalysis.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 4cc33cc..8199f35 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <vector>
 #include <boost/serialization/access.hpp>
+#include <boost/serialization/version.hpp>
 
 namespace snn::internal
 {
@@ -15,12 +16,14 @@ namespace snn::internal
         bool operator==(const binaryClassification&) const = default;
 
         template <typename Archive>
-        void serialize(Archive& ar, unsigned)
+        void serialize(Archive& ar, [[maybe_unused]] const unsigned version)
         {
             ar & truePositive;
             ar & trueNegative;
             ar & falsePositive;
             ar & falseNegative;
+            if (version >= 1)
+                ar & totalError;
         }
     };
 
@@ -121,3 +124,4 @@ namespace snn::internal
         ar & this->rootMeanSquaredErrorIsBetterThanMin;
     }
 }
+BOOST_CLASS_VERSION(snn::internal::binaryClassification, 1)
-- 
2.43.0


From 40aba4a4838133cf994cc0c8b67727fcd8f4dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 26/27] fix: keep the report of an invalid output when a
 network is saved

---
 include/snn/neural_network/NeuralNetwork.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/NeuralNetwork.hpp b/include/snn/neural_network/NeuralNetwork.hpp
index 49c54af..4a47fd7 100644
--- a/include/snn/neural_network/NeuralNetwork.hpp
+++ b/include/snn/neural_network/NeuralNetwork.hpp
@@ -97,8 +97,11 @@ namespace snn::internal
         if (version >= 1) {
             ar & this->numberOfTraining;
         }
+        if (version >= 2) {
+            ar & this->outputNan;
+        }
         ar & this->layers;
         ar & this->optimizer;
     }
 }
-BOOST_CLASS_VERSION(snn::internal::NeuralNetwork, 1)
+BOOST_CLASS_VERSION(snn::internal::NeuralNetwork, 2)
-- 
2.43.0


From 09ea468eabc62eb5405125dd5ec71794dfb68ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:20 +0000
Subject: [PATCH 27/27] fix: refuse filter layers whose number of outputs
 overflows

---
 src/neural_network/layer/LayerFactory.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 0545179..b8b41db 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include "LayerFactory.hpp"
 #include "ExtendedExpection.hpp"
 #include "FullyConnected.hpp"
@@ -40,6 +41,14 @@ void checkFilters(const LayerModel& model)
         throw InvalidArchitectureException("Layer is too big.");
 }
 
+inline
+int multiplyByNumberOfFilters(int numberOfFilters, int numberOfKernelsPerFilter)
+{
+    if (numberOfKernelsPerFilter > numeric_limits<int>::max() / numberOfFilters)
+        throw InvalidArchitectureException("Layer is too big.");
+    return numberOfFilters * numberOfKernelsPerFilter;
+}
+
 inline
 int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& shapeOfInput)
 {
@@ -64,7 +73,7 @@ int computeNumberOfNeuronsForLocallyConnected1D(int numberOfLocallyConnected,
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return numberOfLocallyConnected * ((shapeOfInput[X] / kernelSize) + rest);
+    return multiplyByNumberOfFilters(numberOfLocallyConnected, (shapeOfInput[X] / kernelSize) + rest);
 }
 
 inline
@@ -75,8 +84,8 @@ int computeNumberOfNeuronsForLocallyConnected2D(int numberOfLocallyConnected,
     const int restX = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
     const int restY = shapeOfInput[Y] % kernelSize == 0 ? 0 : 1;
 
-    return numberOfLocallyConnected * ((shapeOfInput[X] / kernelSize) + restX) * ((shapeOfInput[Y] /
-        kernelSize) + restY);
+    return multiplyByNumberOfFilters(numberOfLocallyConnected,
+                                     ((shapeOfInput[X] / kernelSize) + restX) * ((shapeOfInput[Y] / kernelSize) + restY));
 }
 
 inline
@@ -84,7 +93,7 @@ int computeNumberOfKernelsForConvolution1D(int numberOfConvolution,
                                            int kernelSize,
                                            const vector<int>& shapeOfInput)
 {
-    return numberOfConvolution * (shapeOfInput[X] - (kernelSize - 1));
+    return multiplyByNumberOfFilters(numberOfConvolution, shapeOfInput[X] - (kernelSize - 1));
 }
 
 inline
@@ -92,8 +101,8 @@ int computeNumberOfKernelsForConvolution2D(int numberOfConvolution,
                                            int kernelSize,
                                            const vector<int>& shapeOfInput)
 {
-    return numberOfConvolution * (shapeOfInput[X] - (kernelSize - 1)) * (shapeOfInput[Y] - (
-        kernelSize - 1));
+    return multiplyByNumberOfFilters(numberOfConvolution,
+                                     (shapeOfInput[X] - (kernelSize - 1)) * (shapeOfInput[Y] - (kernelSize - 1)));
 }
 
 
-- 
2.43.0

