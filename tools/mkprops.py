#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay consistent)."""
import json
L='src/neural_network/layer/'; N=L+'neuron/'; O='src/neural_network/optimizer/'; D='src/data/'; S='src/neural_network/'
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=obs or [],hook_needed=None)))
p('C01','Announced layer shapes match what layers really produce and consume',
 'For every architecture that is accepted, each layer produces exactly as many values as the product of its announced output shape, and the next layer announces exactly that many inputs. The network announces as many outputs as it really returns, and its numbers of inputs, neurons and parameters are those of its layers (a dense neuron has one weight per input plus a bias, a recurrent neuron one more, a filter one weight per kernel cell and channel plus a bias).',
 ['configurations'],'every sequence of layer types, input shapes (1 to 3 dimensions for filter layers), kernel sizes, filter and neuron counts',
 'The tests build a few dozen fixed architectures, mostly with one channel or square images; the claim is over all shapes, including kernels that do not divide the input.',
 [L+'LayerFactory.cpp',L+'Convolution1D.cpp',L+'Convolution2D.cpp',L+'LocallyConnected1D.cpp',L+'LocallyConnected2D.cpp',L+'MaxPooling1D.cpp',L+'MaxPooling2D.cpp',S+'NeuralNetwork.cpp','include/snn/neural_network/layer/SimpleLayer.tpp'],
 [('sizes of a layer computed from the input shape','LayerFactory::build'),('announced output shapes','constructors of the layers'),('chain of shapes','LayerFactory::build(layers, models)')])
p('C02','Impossible architectures are refused with an exception',
 'Building a network throws, and never divides by zero, overflows or touches memory out of bounds, when the first element is not an input, when there is no layer after it, when another input follows, when a dimension of the input is zero or negative, when a filter layer has a kernel or filter count below one, a kernel larger than the input or more than three dimensions, or when a neuron would have more than one million weights. Every other architecture with positive sizes within the limits is accepted.',
 ['configurations','inputs'],'every list of layer models and every integer size',
 'The tests try ten hand-picked invalid architectures; sizes of zero, negative sizes and products that overflow are not sampled.',
 [L+'LayerFactory.cpp'],[('checks before a layer is built','LayerFactory::build')])
p('C03','Filter layers read exactly the receptive field of each output',
 'For every input shape and kernel size, output (position, filter) of a convolution is the activation of the weighted sum of the input window that starts at that position with stride one, and of a locally connected layer that of the window with stride equal to the kernel size. Window cells map to weights row by row, then column, then channel; cells outside the input count as zero, and no other input is read.',
 ['configurations','inputs'],'all input shapes (channels, width, height), kernel sizes, filter counts, and input values, in one and two dimensions',
 'The tests compare a handful of fixed layers, nearly all square; index arithmetic with quotients and remainders is only right for all shapes if proved.',
 [L+'Convolution1D.cpp',L+'Convolution2D.cpp',L+'LocallyConnected1D.cpp',L+'LocallyConnected2D.cpp'],
 [('table of input indexes per kernel position','buildKernelIndexes'),('gather and weighted sum','computeOutput')],
 [('kernelIndexes','input index of each cell of each window, or -1 for padding','FilterLayer')])
p('C04','Max pooling returns window maxima and routes errors to them only',
 'For every input, each output of a max pooling layer is the maximum of its own window of its own channel, where windows have the kernel size, do not overlap and are cut at the border. Backpropagation then puts each output error on the input cell that won and zero on all other cells.',
 ['configurations','inputs'],'all input shapes, kernel sizes, input values (including all-negative windows) and errors',
 'Two fixed examples are tested, one channel each.',
 [L+'MaxPooling1D.cpp',L+'MaxPooling2D.cpp'],[('window table','buildKernelIndexes'),('argmax of the window','computeOutput'),('routing','computeBackOutput')],
 [('maxValueIndexes','winner of each window in the last forward pass','MaxPooling1D, MaxPooling2D')])
p('C05','A neuron computes its activation of the weighted inputs, once per output',
 'A simple neuron returns the activation of the sum of inputs times weights plus bias times the last weight; a recurrent neuron also adds its own previous output times its recurrent weight, and a gated unit mixes its previous output and its candidate with the update gate. A dense or recurrent layer returns the outputs of its neurons in order, each computed from the same inputs, and a network feeds the outputs of each layer to the next one.',
 ['inputs'],'all numbers of inputs and neurons, all weights, inputs and previous states',
 'Tests check learned accuracy or a few fixed vectors; a wrong term hidden by training or by a zero state goes unnoticed.',
 [N+'SimpleNeuron.cpp',N+'RecurrentNeuron.cpp',N+'GatedRecurrentUnit.cpp',L+'SimpleLayer.cpp','include/snn/neural_network/layer/SimpleLayer.tpp','include/snn/neural_network/layer/Layer.tpp',S+'NeuralNetwork.cpp'],
 [('weighted sum','output of the neurons'),('order of outputs','computeOutput of the layers')])
p('C06','Backpropagated errors follow the wiring of the forward pass',
 'The error a layer returns for an input cell is the sum, over exactly the outputs whose forward computation reads that cell, of the error of that output times the activation derivative times the weight that links them; cells that feed no output get zero. Each output error is consumed exactly once, in the order in which the outputs were produced, in backpropagation as well as when the first layer is trained.',
 ['configurations','inputs'],'all dense, convolution and locally connected layers, all shapes, kernel sizes, filter counts, weights and errors',
 'Back outputs are tested for a few shapes, where several wirings coincide; one test even pins a wrong wiring.',
 [N+'SimpleNeuron.cpp',N+'RecurrentNeuron.cpp','include/snn/neural_network/layer/SimpleLayer.tpp',L+'Convolution1D.cpp',L+'Convolution2D.cpp',L+'LocallyConnected1D.cpp',L+'LocallyConnected2D.cpp',S+'NeuralNetwork.cpp'],
 [('scatter of neuron errors','computeBackOutput'),('errors of a neuron','backOutput'),('first layer','computeTrain')])
p('C07','A training step applies the momentum gradient step to every weight',
 'One update with learning rate r, momentum m, error e and batch size b adds to every weight of a simple neuron exactly (r/b)*e*x + m*d, where x is the stored input of that weight (the bias for the last one) and d the change of that weight in the update b steps earlier, and remembers the change. A recurrent neuron does the same for its input weights, and nothing else of the neuron changes; with a learning rate and momentum of zero no weight of any neuron changes.',
 ['inputs','histories'],'all numbers of weights, learning rates, momenta, errors and previous updates',
 'Tests only check that training reaches some accuracy, or one fixed momentum example.',
 [O+'StochasticGradientDescent.cpp',N+'SimpleNeuron.cpp',N+'RecurrentNeuron.cpp'],[('update rule','StochasticGradientDescent::updateWeights')],
 [('previousDeltaWeights','changes of the last updates','Neuron')])
p('C08','Each weight update uses the input of the forward pass it belongs to',
 'A neuron that works on b positions per pass keeps its last b inputs and last b weight changes, and hands them out in the order in which they were stored, wrapping around for ever. After any number of complete passes (b outputs, then b updates) update number i of a pass uses the input of output number i of the same pass, and an inference pass in between does not disturb later passes.',
 ['histories'],'all queue sizes and all sequences of stores and fetches of whole passes',
 'No test drives more than one position per neuron through several passes and inspects the pairing.',
 [N+'CircularData.cpp',N+'SimpleNeuron.cpp',O+'StochasticGradientDescent.cpp',L+'Convolution1D.cpp',L+'Convolution2D.cpp'],
 [('circular queue','CircularData'),('one push per output, one get per update','SimpleNeuron::output, updateWeights')],
 [('queue, indexPush, indexGet','stored inputs and cursors','CircularData')])
p('C09','A temporal reset erases the history of recurrent layers',
 'After any sequence of inputs, computing an output with a temporal reset gives the same result as a network with the same weights that never saw an input. Without a reset, a recurrent layer with recurrent weights of zero gives outputs that do not depend on history either.',
 ['histories','inputs'],'all weights, all histories of inputs and resets, recurrent and gated layers',
 'The tests that exercise resets train on short fixed sequences and only check accuracy.',
 [N+'RecurrentNeuron.cpp',N+'GatedRecurrentUnit.cpp',L+'SimpleLayer.cpp'],[('reset','reset of the recurrent neurons')],
 [('lastOutput, previousOutput, sum, previousSum, recurrentError','state carried between steps','RecurrentNeuron, GatedRecurrentUnit')])
p('C10','Inference and evaluation never change what a network has learned',
 'Computing an output, predicting a class or evaluating on a test set changes no weight, bias, stored weight change or optimizer setting of any layer, and does not count as a training. For a network without recurrent layers two inferences on the same input give the same result, whatever was inferred in between.',
 ['inputs','histories'],'all architectures, weights, inputs and sequences of inferences',
 'Tests never compare weights before and after inference.',
 [S+'NeuralNetwork.cpp',S+'StraightforwardNeuralNetwork.cpp','include/snn/neural_network/layer/Layer.tpp',L+'Convolution1D.cpp',L+'MaxPooling1D.cpp',N+'SimpleNeuron.cpp',N+'RecurrentNeuron.cpp',N+'GatedRecurrentUnit.cpp'],
 [('inference path writes only transient state','output, computeOutput')])
p('C11','Dropout silences the same outputs forward and backward and scales inference',
 'During training each output of a layer with dropout is either kept unchanged or set to zero, and the error of an output is kept exactly when the output was kept in the last training pass and zeroed otherwise; a kept set is redrawn only on temporal resets (or when the number of outputs changes). At inference every output is multiplied by one minus the dropout rate. A rate of zero changes nothing at all.',
 ['inputs','histories'],'all rates in [0,1), all output sizes (including filter layers), all random draws',
 'The only dropout test checks equality after saving.',
 [O+'Dropout.cpp','include/snn/neural_network/layer/Layer.tpp'],[('mask','presenceProbabilities'),('order of application','Layer::outputForTraining, backOutput')],
 [('presenceProbabilities','outputs kept in the last training pass','Dropout')])
p('C12','Softmax outputs are a probability distribution that keeps the order',
 'For every non-empty vector of finite outputs, softmax returns a vector of the same size whose values are between zero and one and sum to one, equal to exp(x_i) divided by the sum of all exp(x_j). A larger input never gets a smaller probability, adding a constant to all inputs changes nothing, and errors pass through unchanged.',
 ['inputs'],'all vector sizes and all finite real inputs',
 'Three fixed vectors are tested.',
 [O+'Softmax.cpp'],[('shift by the maximum and normalisation','Softmax::computeSoftmax')])
p('C13','Evaluation counts every datum once and derives rates from the counts',
 'Each evaluated datum adds exactly one to either the well classified or the misclassified count, and exactly one to one of the four counters of every output, chosen by the separator (classification) or the precision (regression); a datum is well classified exactly when the highest output is its class, when every output is on the right side of the separator, or when every output is within the precision. Global accuracy is well / (well + mis), weighted accuracy is the mean recall and F1 the mean of the F1 scores of the outputs, all between zero and one, and the mean absolute error is the summed absolute error per datum.',
 ['inputs','histories'],'all sequences of outputs and expected values, all numbers of outputs, separators and precisions',
 'Tests look at accuracies of trained networks only.',
 [S+'StatisticAnalysis.cpp'],[('counting','evaluateOnceFor...'),('rates','compute...')],
 [('clusters, numberOfDataWellClassified, numberOfDataMisclassified','counters since the last start of testing','StatisticAnalysis')])
p('C14','Best-so-far statistics are the running best of all evaluations',
 'After any sequence of evaluations the reported maximum of accuracy, weighted accuracy and F1 score is the largest value of any evaluation so far, and the reported minimum of the mean absolute and root mean squared errors the smallest. The last results are those of the last evaluation, and an evaluation is flagged as better than before (which triggers the automatic save) exactly when it improves the corresponding best.',
 ['histories'],'all sequences of evaluation results',
 'No test reads the best values after several evaluations.',
 [S+'StatisticAnalysis.cpp',S+'StraightforwardNeuralNetwork.cpp'],[('update of the bests','StatisticAnalysis::stopTesting'),('auto save','StraightforwardNeuralNetwork::evaluate')],
 [('...Max, ...Min, ...IsBetterThan...','bests and flags','StatisticAnalysis')])
p('C15','Stop conditions combine as written: any of them, or all of them',
 'Training stops on a condition joined with "or" exactly when at least one of the given epochs, accuracy, error and duration limits is reached, and on one joined with "and" exactly when all given limits are reached; limits that were not given play no role. Joining two limits of the same kind keeps the one that decides (the earlier one for "or", the later one for "and"), the order of operands does not matter, and mixing both operators throws.',
 ['inputs','programs'],'all combinations of limits and operators, all current epochs, accuracies, errors and durations',
 'Tests use two or three combinations and only see that training ends.',
 [S+'Wait.cpp'],[('combination','operator||, operator&&'),('decision','Wait::isOver')])
p('C16','A batch is the exact mean of the data and labels it covers',
 'For every index and batch size that fit in the training set, the input (and expected output) of a batch is, component by component, the arithmetic mean of the batch-size consecutive entries of the current order starting at that index; the data set itself is not changed. For a batch size of one it is that entry itself, and inputs and expected outputs always come from the same entries.',
 ['inputs'],'all data sets, orders, indexes and batch sizes',
 'The tests with batches only check the final accuracy.',
 [D+'Data.cpp',D+'ProblemComposite.cpp'],[('mean','Data::getTrainingData, ProblemComposite::getTrainingOutputs')])
p('C17','Shuffling reorders training data without losing, doubling or splitting it',
 'After any number of shuffles of non temporal or sequential data the order is a permutation of the training set, sequential data stays in sequence order, and unshuffling restores the original order. For time series every index stays within the training set, every datum that is trained on after a window start lies in an unbroken run of consecutive data since that start, and every start is flagged for reset.',
 ['histories','inputs'],'all training set sizes, recurrence counts, numbers of shuffles and random draws',
 'No test inspects the order.',
 [D+'CompositeForNonTemporalData.cpp',D+'CompositeForTemporalData.cpp',D+'CompositeForTimeSeries.cpp',D+'TemporalComposite.cpp'],
 [('index table','shuffledIndexes'),('flags','areFirstDataOfTemporalSequence, needToTrainOnData')])
p('C18','Normalization maps every training column onto the requested interval',
 'After normalizing to [a, b] with a < b, every column of the training inputs lies in [a, b], its smallest value is a and, if the column was not constant, its largest is b. Training and testing inputs of a column go through one and the same increasing affine map, derived from the training inputs only, and nothing else of the data changes.',
 ['inputs'],'all data sets, sizes and intervals',
 'No test looks at normalized values.',
 [D+'Data.cpp'],[('column wise affine map','Data::normalize')])
p('C19','Training visits each full batch of the current order once per epoch',
 'In each epoch that is not interrupted, training reads the batches that start at 0, b, 2b, ... and fit in the training set, each exactly once and in this order, with the inputs, expected outputs and reset flag of the same index, and shuffles before each epoch. Only data flagged for learning changes weights, and when training ends the network is idle with its index back at zero.',
 ['inputs','histories'],'all training set sizes, batch sizes, evaluation frequencies and stop conditions',
 'Tests check the accuracy reached, which survives skipped or repeated batches.',
 [S+'StraightforwardNeuralNetwork.cpp'],[('loops','StraightforwardNeuralNetwork::trainSync, evaluate')],
 [('index, epoch, isIdle','progress of the training','StraightforwardNeuralNetwork')])
p('C20','Data that does not fit is refused before anything is trained',
 'Constructing a data set throws when the training set is empty, when the numbers of inputs and labels of a set differ, when rows differ in size, when a temporal sequence is empty, when classification has fewer than two labels or when a time series has fewer than one recurrence. Training throws and leaves the network unchanged when the sizes of inputs or labels differ from those of the network, when the batch size is below one or above the training set size, or is above one for temporal data; any other data is accepted.',
 ['inputs','configurations'],'all data sets, networks and batch sizes',
 'Tests only build valid data.',
 [D+'Data.cpp',D+'CompositeForClassification.cpp',D+'CompositeForTimeSeries.cpp',S+'StraightforwardNeuralNetwork.cpp'],
 [('checks','Data::initialize, Data::isValid, validData')])
p('C21','A copy of a network is equal to the original and independent of it',
 'A copied network compares equal to its original and gives the same outputs for every input. Training, running or changing one of them afterwards never changes the other, including its optimizer, and each layer of the copy uses the optimizer of the copy.',
 ['histories','configurations'],'all architectures and all operations after the copy',
 'One test copies a network and compares it once.',
 [S+'NeuralNetwork.cpp',S+'StraightforwardNeuralNetwork.cpp','include/snn/neural_network/layer/Layer.tpp',L+'FullyConnected.cpp',L+'Convolution1D.cpp',L+'Convolution2D.cpp',L+'LocallyConnected1D.cpp',L+'LocallyConnected2D.cpp',L+'Recurrence.cpp',L+'GruLayer.cpp',O+'Dropout.cpp',O+'L1Regularization.cpp'],
 [('deep copy','copy constructors and clone')])
p('C22','A saved network comes back equal and behaves the same',
 'Loading a file written by saving gives a network that compares equal to the saved one, returns the same outputs and statistics, and continues training exactly as the original would. This holds for every architecture and layer optimizer, and at any point between two trainings.',
 ['configurations','histories'],'all architectures, layer optimizers and training histories before the save',
 'Two fixed architectures are saved; state that they do not carry is not compared.',
 ['include/snn/neural_network/NeuralNetwork.hpp','include/snn/neural_network/StraightforwardNeuralNetwork.hpp','include/snn/neural_network/StatisticAnalysis.hpp','include/snn/neural_network/layer/Layer.hpp','include/snn/neural_network/layer/FilterLayer.hpp','include/snn/neural_network/layer/MaxPooling1D.hpp','include/snn/neural_network/layer/MaxPooling2D.hpp','include/snn/neural_network/layer/neuron/Neuron.hpp','include/snn/neural_network/layer/neuron/RecurrentNeuron.hpp','include/snn/neural_network/layer/neuron/GatedRecurrentUnit.hpp','include/snn/neural_network/optimizer/Dropout.hpp'],
 [('archive functions','serialize of every class')])
p('C23','Network equality is an equivalence that sees every learned difference',
 'Comparing networks, layers, neurons or optimizers for equality is reflexive and symmetric, "different" is always the negation of "equal", and comparing parts of different kinds gives false without an error. Two networks that differ in any weight, bias, kernel shape, layer type, number of layers, learning rate, momentum or layer optimizer setting are not equal.',
 ['inputs'],'all pairs of networks and all single differences',
 'Tests compare a network with its own copy and with one other.',
 [S+'NeuralNetwork.cpp','include/snn/neural_network/layer/Layer.tpp',L+'FilterLayer.cpp',L+'MaxPooling1D.cpp',L+'MaxPooling2D.cpp',N+'Neuron.cpp',N+'RecurrentNeuron.cpp',N+'GatedRecurrentUnit.cpp',N+'CircularData.cpp',O+'StochasticGradientDescent.cpp',O+'Dropout.cpp',O+'L1Regularization.cpp',O+'L2Regularization.cpp',O+'ErrorMultiplier.cpp',O+'Softmax.cpp'],
 [('comparison','operator== and operator!=')])
p('C24','Coordinate helpers are inverse to each other and extrema are extrema',
 'Flattening coordinates inside a box and taking the result apart again gives back the same coordinates, different coordinates give different indexes, and flattening a list of rows concatenates them in order. The minimum and maximum helpers return, for every non-empty list, an element of the list that no other element undercuts or exceeds, and throw on an empty list.',
 ['inputs'],'all box sizes, coordinates and lists',
 'The helpers have no test.',
 ['include/snn/tools/Tools.hpp'],[('helpers','tools::flatten, roughenX, roughenY, roughenZ, getMinValue, getMaxValue')])
p('C25','The predicted class is the position of the highest output',
 'For every non-empty output vector the predicted class is the first position that holds the highest output, whatever the range of the outputs. Evaluation of a classification judges a datum by this same position.',
 ['inputs'],'all output vectors, including outputs that are all very low',
 'Tests use activations bounded by zero or minus one.',
 [S+'StraightforwardNeuralNetwork.cpp',S+'StatisticAnalysis.cpp'],[('argmax','computeCluster, evaluateOnceForClassification')])
p('C26','Every activation function comes with its true derivative and range',
 'For each activation function the derivative is the mathematical derivative of the function at every real point where the function is differentiable. Outputs of sigmoid and gaussian lie in [0, 1], of tanh in [-1, 1], of the rectifier in [0, infinity), the identity returns its input, and each name selects its own function.',
 ['inputs'],'all real arguments',
 'The tests only use activations inside training.',
 ['include/snn/neural_network/layer/neuron/activation_function/Sigmoid.hpp','include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp','include/snn/neural_network/layer/neuron/activation_function/Tanh.hpp','include/snn/neural_network/layer/neuron/activation_function/ReLU.hpp','include/snn/neural_network/layer/neuron/activation_function/GELU.hpp','include/snn/neural_network/layer/neuron/activation_function/Gaussian.hpp','include/snn/neural_network/layer/neuron/activation_function/Identity.hpp',N+'activation_function/ActivationFunction.cpp'],
 [('pairs of function and derivative','subclasses of ActivationFunction'),('selection','ActivationFunction::get')])
p('C27','Regularization and error scaling change errors exactly as configured',
 'Before backpropagation an error multiplier multiplies every error by its factor, and L1 and L2 regularization add to every error their value times the per neuron average of the sum of absolute or squared weights of the layer. They leave outputs untouched in training and inference, and several optimizers of a layer act one after the other in the order in which they were given, each created with its own kind and value.',
 ['inputs','configurations'],'all error vectors, weights, values and lists of layer optimizers',
 'No test checks the effect of these optimizers.',
 [O+'ErrorMultiplier.cpp',O+'L1Regularization.cpp',O+'L2Regularization.cpp',O+'LayerOptimizerFactory.cpp','include/snn/neural_network/layer/Layer.tpp'],
 [('transformations','applyBeforeBackpropagation'),('factory','LayerOptimizerFactory::build')])
p('C28','Stopping an asynchronous training always ends it and leaves the network idle',
 'After an asynchronous training was started, asking it to stop returns in bounded time with the training thread ended and the network idle, whatever the moment of the request. Destroying the network does the same.',
 ['schedules'],'all interleavings of the training thread and the caller',
 'The result depends on thread scheduling; tests see one interleaving.',
 [S+'StraightforwardNeuralNetwork.cpp'],[('stop flag and join','stopTrainingAsync')])
p('C29','A network whose outputs become invalid stops training and says so',
 'As soon as an output of the network is infinite or not a number, the network reports it, performs no further weight update, and training and evaluation end with all statistics set to not-a-number.',
 ['inputs','histories'],'all weights and inputs whose outputs overflow',
 'Few tests reach invalid values.',
 [S+'NeuralNetwork.cpp',S+'StraightforwardNeuralNetwork.cpp'],[('test of the outputs','NeuralNetwork::output, outputForTraining')])
if __name__=='__main__':
    import os
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here,'properties.jsonl'),'w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
