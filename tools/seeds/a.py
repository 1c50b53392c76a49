SEEDS = []
def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
L = 'src/neural_network/layer/'
seed('c03-conv2d-nonsquare', 'C03', 'a two dimensional convolution on an input whose width and height differ', 'the windows are taken at positions of the transposed output grid',
 [(L + 'Convolution2D.cpp', 'const int kernelPosX = k % this->shapeOfOutput[X];\n        const int kernelPosY = k / this->shapeOfOutput[X];', 'const int kernelPosX = k % this->shapeOfOutput[Y];\n        const int kernelPosY = k / this->shapeOfOutput[Y];')],
 r'''
int main()
{
    Net n({snn::Input(1, 5, 3), snn::Convolution(1, 2, snn::activation::identity)});
    V w{1, 10, 100, 1000, 0}; sn(n, 0, 0).setWeights(w);
    V in = ramp(15); V out = n.computeOutput(in);
    EXPECT(out.size() == 8);
    for (int y = 0; y < 2; ++y) for (int x = 0; x < 4; ++x)
    {
        float e = in[y * 5 + x] + 10 * in[y * 5 + x + 1] + 100 * in[y * 5 + 5 + x] + 1000 * in[y * 5 + 6 + x];
        EXPECT(near(out[y * 4 + x], e));
    }
    return bad;
}
''')
seed('c07-bias-without-momentum', 'C07', 'training with momentum, at least two updates of a simple neuron', 'the bias weight is updated without its momentum part',
 [('src/neural_network/optimizer/StochasticGradientDescent.cpp', 'deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];\n    neuron.weights[w] += deltaWeights[w];\n    neuron.previousDeltaWeights.pushBack(deltaWeights);', 'deltaWeights[w] = lr * error * neuron.bias;\n    neuron.weights[w] += deltaWeights[w];\n    neuron.previousDeltaWeights.pushBack(deltaWeights);')],
 r'''
int main()
{
    Net n({snn::Input(1), snn::FullyConnected(1, snn::activation::identity)}, snn::StochasticGradientDescent(0.1f, 0.5f));
    auto& s = sn(n, 0, 0); s.setWeights({0.5f, 0.25f});
    float d = 0;
    for (int i = 0; i < 4; ++i)
    {
        auto w = s.getWeights(); float o = w[0] * 2 + w[1] * s.bias; float e = 2 * (3.0f - o);
        n.trainOnce({2.0f}, {3.0f}, true);
        d = 0.1f * e * s.bias + 0.5f * d;
        EXPECT(near(s.getWeights()[1], w[1] + d));
    }
    return bad;
}
''')
seed('c08-queue-backwards', 'C08', 'a neuron that works on more than one position per pass (a convolution with several windows)', 'the stored inputs come back in the wrong order, so that an update uses the input of another position',
 [(L + 'neuron/CircularData.cpp', 'return &this->queue[this->indexGet++];', 'return &this->queue[this->queue.size() - ++this->indexGet];')],
 r'''
int main()
{
    si::CircularData c; c.initialize(3, 1);
    for (int pass = 0; pass < 3; ++pass)
    {
        for (int i = 0; i < 3; ++i) c.pushBack({(float)(10 * pass + i)});
        for (int i = 0; i < 3; ++i) EXPECT((*c.getBack())[0] == 10 * pass + i);
    }
    return bad;
}
''')
seed('c12-softmax-first-not-max', 'C12', 'outputs where another one exceeds the first by more than 88', 'the exponentials overflow and the probabilities no longer sum to one',
 [('src/neural_network/optimizer/Softmax.cpp', 'const auto max = ranges::max(outputs);', 'const auto max = outputs.front();')],
 r'''
int main()
{
    Net n({snn::Input(3), snn::FullyConnected(3, snn::activation::identity, snn::Softmax())});
    V o{0, 200, 3}; n.layers[0]->applyAfter(o);
    return bad;
}
'''.replace('n.layers[0]->applyAfter(o);', 'static_cast<si::FullyConnected*>(n.layers[0].get())->optimizers[0]->applyAfterOutputForTesting(o); EXPECT(near(o[0] + o[1] + o[2], 1)); EXPECT(near(o[1], 1));'))
seed('c13-single-true-positive', 'C13', 'an evaluation in which an output has exactly one true positive', 'the weighted accuracy leaves out outputs with exactly one true positive',
 [('src/neural_network/StatisticAnalysis.cpp', 'if (c.truePositive > 0)\n            result += c.truePositive / (c.truePositive + c.falseNegative);', 'if (c.truePositive > 1)\n            result += c.truePositive / (c.truePositive + c.falseNegative);')],
 r'''
int main()
{
    si::StatisticAnalysis s; s.initialize(2); s.startTesting();
    V a{0.9f, 0.1f}, b{0.2f, 0.8f};
    s.evaluateOnceForClassification(a, 0, 0.5f); s.evaluateOnceForClassification(b, 1, 0.5f); s.evaluateOnceForClassification(b, 1, 0.5f);
    s.stopTesting(); EXPECT(near(s.getWeightedClusteringRate(), 1));
    return bad;
}
''')
seed('c18-clamp-testing', 'C18', 'testing data outside the range of the training data', 'testing values below the training range are cut instead of going through the same affine map',
 [('src/data/Data.cpp', 'inputsTesting[i][j] = inputsTesting[i][j] * (max - min) + min;', 'inputsTesting[i][j] = std::max(min, inputsTesting[i][j] * (max - min) + min);')],
 r'''
int main()
{
    VV a{{0}, {2}, {4}}, l{{0}, {1}, {0}}, t{{-4}, {8}, {2}};
    snn::Data d(snn::problem::regression, a, l, t, l); d.normalize(-1, 1);
    EXPECT(near(d.getTestingData(0)[0], -3)); EXPECT(near(d.getTestingData(1)[0], 3)); EXPECT(near(d.getTestingData(2)[0], 0));
    return bad;
}
''')
seed('c19-last-batch', 'C19', 'a training set whose size is a multiple of the batch size', 'the last full batch of every epoch is left out',
 [('src/neural_network/StraightforwardNeuralNetwork.cpp', 'index + batchSize <= this->numberOfTrainingsBetweenTwoEvaluations', 'index + batchSize < this->numberOfTrainingsBetweenTwoEvaluations')],
 r'''
using namespace snn;
int main()
{
    VV in, out; for (int i = 0; i < 6; ++i) { in.push_back({(float)i / 10}); out.push_back({0.5f}); }
    Data d(problem::regression, in, out);
    Net n({Input(1), FullyConnected(1)});
    n.train(d, 2_ep, 2, 0);
    EXPECT(n.getNumberOfTraining() == 6);
    return bad;
}
''')
seed('c20-batched-time-series', 'C20', 'training on a time series with a batch size above one', 'training on batches of temporal data is accepted for time series',
 [('src/neural_network/StraightforwardNeuralNetwork.cpp', 'if (batchSize != 1 && data.typeOfTemporal != nature::nonTemporal)', 'if (batchSize != 1 && data.typeOfTemporal == nature::sequential)')],
 r'''
using namespace snn;
int main()
{
    VV in, out; for (int i = 0; i < 8; ++i) { in.push_back({(float)i / 10}); out.push_back({0.5f}); }
    Data d(problem::regression, in, out, nature::timeSeries, 1);
    Net n({Input(1), FullyConnected(1)}); Net c(n);
    EXPECT(throws([&] { n.train(d, 1_ep, 2, 0); })); EXPECT(n == c);
    return bad;
}
''')
seed('c21-gru-gate-optimizer', 'C21', 'a copy of a network with a gated unit, of which the learning rate is changed', 'one gate of the copy keeps using the optimizer of the original',
 [(L + 'neuron/GatedRecurrentUnit.cpp', '    this->outputGate.setOptimizer(newOptimizer);\n', '')],
 r'''
int main()
{
    Net n({snn::Input(2), snn::GruLayer(2)}); Net c(n);
    for (int i = 0; i < 2; ++i)
    {
        auto& g = *static_cast<si::GatedRecurrentUnit*>(c.layers[0]->getNeuron(i));
        EXPECT(g.resetGate.optimizer == c.optimizer); EXPECT(g.updateGate.optimizer == c.optimizer); EXPECT(g.outputGate.optimizer == c.optimizer);
    }
    return bad;
}
''')
seed('c22-recurrent-sum', 'C22', 'a recurrent network saved between two trainings', 'the sum of the previous step is not saved, so that training continues differently after loading',
 [('include/snn/neural_network/layer/neuron/RecurrentNeuron.hpp', '        ar & this->previousSum;\n', '')],
 r'''
int main()
{
    Net n({snn::Input(1), snn::Recurrence(2), snn::FullyConnected(1)});
    for (int i = 0; i < 5; ++i) n.trainOnce({0.3f * i}, {0.7f}, i == 0);
    n.saveAs("demo.snn"); Net& m = Net::loadFrom("demo.snn");
    for (int i = 0; i < 2; ++i) EXPECT(rn(n, 0, i).previousSum == rn(m, 0, i).previousSum);
    EXPECT(n == m);
    return bad;
}
''')
seed('c23-momentum-ignored', 'C23', 'two networks that differ only in their momentum', 'networks with different momentum compare equal',
 [('src/neural_network/optimizer/StochasticGradientDescent.cpp', '            && this->learningRate == o.learningRate\n            && this->momentum == o.momentum;', '            && this->learningRate == o.learningRate;')],
 r'''
int main()
{
    Net n({snn::Input(1), snn::FullyConnected(1)}, snn::StochasticGradientDescent(0.1f, 0.5f)); Net c(n);
    EXPECT(n == c); static_cast<si::StochasticGradientDescent*>(c.optimizer.get())->momentum = 0.25f; EXPECT(!(n == c)); EXPECT(n != c);
    return bad;
}
''')
seed('c24-roughen-y', 'C24', 'a three dimensional box whose width and height differ', 'the second coordinate of an index is wrong',
 [('include/snn/tools/Tools.hpp', 'return (index % (maxX * maxY)) / maxX;', 'return (index % (maxX * maxY)) / maxY;')],
 r'''
int main()
{
    using namespace snn::tools;
    for (int z = 0; z < 4; ++z) for (int y = 0; y < 3; ++y) for (int x = 0; x < 5; ++x)
    { int i = flatten(x, y, z, 5, 3); EXPECT(roughenX(i, 5, 3) == x); EXPECT(roughenY(i, 5, 3) == y); EXPECT(roughenZ(i, 5, 3) == z); if (bad) return 1; }
    return bad;
}
''')
seed('c25-last-highest', 'C25', 'an output vector in which two outputs share the highest value', 'the last instead of the first of the highest outputs is predicted',
 [('src/neural_network/StraightforwardNeuralNetwork.cpp', '            maxOutputValue = outputs[i];\n            maxOutputIndex = i;', '            maxOutputValue = outputs[i] - 0.0001f;\n            maxOutputIndex = i;')],
 r'''
int main()
{
    Net n({snn::Input(1), snn::FullyConnected(3, snn::activation::identity)});
    sn(n, 0, 0).setWeights({0, 0}); sn(n, 0, 1).setWeights({1, 0}); sn(n, 0, 2).setWeights({1, 0});
    EXPECT(n.computeCluster({1}) == 1); EXPECT(n.computeCluster({-1}) == 0);
    return bad;
}
''')
seed('c26-gelu-derivative', 'C26', 'the GELU function away from zero', 'the derivative misses a factor',
 [('include/snn/neural_network/layer/neuron/activation_function/GELU.hpp', 'return 1.702f * x * (1.0f - powf(tanhf(1.702f * x / 2.0f), 2.0f)) / 4.0f', 'return x * (1.0f - powf(tanhf(1.702f * x / 2.0f), 2.0f)) / 4.0f')],
 r'''
int main()
{
    auto f = si::ActivationFunction::get(snn::activation::GELU);
    for (float x = -3; x < 3; x += 0.25f) { double h = 1e-2, d = (f->function(x + h) - f->function(x - h)) / (2 * h); EXPECT(near(f->derivative(x), d, 2e-3)); }
    return bad;
}
''')
seed('c01-maxpool2d-shape', 'C01', 'two dimensional max pooling whose kernel divides the width but not the height, or the other way round', 'the announced output shape does not match the number of outputs',
 [(L + 'MaxPooling2D.cpp', 'this->shapeOfInput[Y] / this->kernelSize + restY,', 'this->shapeOfInput[Y] / this->kernelSize + restX,')],
 r'''
int main()
{
    Net n({snn::Input(1, 4, 5), snn::MaxPooling(2), snn::FullyConnected(1)});
    auto s = n.layers[0]->getShapeOfOutput(); EXPECT(s[0] * s[1] * s[2] == 6); EXPECT((int)n.layers[0]->output(ramp(20), false).size() == s[0] * s[1] * s[2]); EXPECT(n.layers[1]->getNumberOfInputs() == 6);
    return bad;
}
''')
seed('c02-kernel-one-side', 'C02', 'a two dimensional convolution whose kernel fits in one direction only', 'a kernel that is larger than the input is accepted when it fits in the other direction',
 [(L + 'LayerFactory.cpp', '''            if (model.kernelSize > shapeOfInput[X]
                || model.kernelSize > shapeOfInput[Y])
            {
                throw InvalidArchitectureException("Kernel of locally connected layer is too big.");''', '''            if (model.kernelSize > shapeOfInput[X]
                && model.kernelSize > shapeOfInput[Y])
            {
                throw InvalidArchitectureException("Kernel of locally connected layer is too big.");''')],
 r'''
int main()
{
    EXPECT(throws([] { Net n({snn::Input(1, 5, 3), snn::LocallyConnected(1, 4)}); }));
    EXPECT(throws([] { Net n({snn::Input(1, 3, 5), snn::LocallyConnected(1, 4)}); }));
    EXPECT(!throws([] { Net n({snn::Input(1, 4, 5), snn::LocallyConnected(1, 4)}); }));
    return bad;
}
''')
