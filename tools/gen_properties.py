import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
RAM='src/models/wisard/ram.cc'; DIS='src/models/wisard/discriminator.cc'; WIS='src/models/wisard/wisard.cc'
RDH='src/models/wisard/ramdatahandle.cc'; CLU='src/models/cluswisard/cluster.cc'; CW='src/models/cluswisard/cluswisard.cc'
UT='src/common/utils.cc'; BL='src/common/bleaching.cc'; BIN='src/data/bininput.cc'; DS='src/data/dataset.cc'
KC='src/binarization/kernelcanvas.cc'; SY='src/synthetic_data/synthesizers.cc'; HDR='include/wisardpkg.hpp'
WW='src/wrappers/wisardwrapper.cc'; CWW='src/wrappers/cluswisardwrapper.cc'; DW='src/wrappers/discriminatorwrapper.cc'; KW='src/wrappers/kernelcanvaswrapper.cc'; BIND='src/wisard_bind.cc'

p('C01','A discriminator answers with exact per-RAM occurrence counts',
 "Classifying an entry with a Discriminator returns, RAM by RAM and in the order of its mapping, exactly the number of trained entries that agree with it on every position that RAM reads, and 0 for an address made only of zeros when ignoreZero is on. This holds for every base, addressing and training history, whatever the order of the trainings and however often an entry is repeated, and whether entries come one at a time, as a list of entries or as BinInput.",
 ['histories','inputs','configurations'],"every sequence of train calls over every mapping, base, ignoreZero setting, address size and repetition count",
 "test_discriminator.py never looks at a vote; its assertions only check that calls return. Four fixed entries, base 2 only, no ignoreZero.",
 [RAM,DIS],[('address computation and counter update','RAM::getIndex / train / getVote'),('per-RAM loop','Discriminator::train / _classify')],['Discriminator.classify'],
 [('positions','address -> occurrence count',RAM)])
p('C02','Different RAM inputs never share a memory cell; impossible sizes are refused',
 "For every base b and address size n with b^n <= 2^64, two entries that differ in any position a RAM reads are counted in different cells of that RAM, right up to the limit. A configuration whose b^n exceeds 2^64 is refused with an error, no later than the first time it would be used, by every way of building the model (random, indexes, mapping, saved JSON).",
 ['configurations','inputs'],"every (base, address size) pair around the 64-bit limit, and all pairs of probe tuples within it",
 "Tests use address sizes 2, 3 and 20 with base 2; nothing near 64 bits and no other base is ever tried.",
 [RAM,UT],[('limit check','RAM::checkLimitAddressSize'),('positional address','RAM::getIndex')],['Discriminator constructor','Discriminator.classify'])
p('C03','Every addressing mode reads exactly the positions it promises',
 "Whatever random choices are made, a default Discriminator of entry size E and address size n has ceil(E/n) RAMs of n positions that together read every position of the entry (each exactly once when n divides E); without completeAddressing it has floor(E/n) RAMs and no position is read twice. Explicit indexes are split in the given order into consecutive RAMs of n positions and an explicit mapping is used verbatim, for Discriminator and for every class of a Wisard alike. Addressings that are impossible (address size below 2 or above E, base below 2, index lists of wrong length, repeated, negative or out-of-range positions) are refused with an error.",
 ['configurations','inputs'],"every entry size, address size, option combination, index list and mapping, and every outcome of the random generator",
 "Tests fix one mapping and one random layout per run and compare only the mapping echoed in the JSON.",
 [DIS,WIS,DW,WW],[('random addressing','Discriminator::setRAMShuffle'),('indexes','Discriminator::setRAMByIndex'),('mapping','Discriminator::setRAMByMapping'),('validation','checkAddressSize / checkListOfIndexes / checkBase')],['json()["mapping"]','Discriminator.classify with single-position probes'])
p('C04','Wisard picks the class the bleaching rule selects',
 "Given the per-RAM occurrence counts of each trained class for an entry, Wisard.classify returns the class with most RAMs whose count is at least b, where b is 1 if bleaching is off, and otherwise the smallest threshold from 1 upwards at which the best class leads the runner-up by at least `confidence` RAMs or no class has more than one such RAM; equal best scores go to the label that sorts last. The answer depends on nothing else: not on the order in which classes were trained or how labels sort (beyond that tie rule), not on the other entries in the call, not on verbose, and it is the same from Python and C++.",
 ['inputs','configurations','histories'],"every matrix of per-class per-RAM counts, every confidence, bleaching on or off, ignoreZero on or off, any label set",
 "Tests classify a handful of separable entries where no bleaching step is ever needed; confidence, ties and bleachingActivated=False are never exercised.",
 [BL,WIS,WW],[('bleaching loop','Bleaching::make'),('winner','Bleaching::getBiggestCandidate'),('Python path','WisardWrapper::_pyClassify')],['Wisard.classify'])
p('C05','What a Wisard class knows depends only on its own examples',
 "After any sequence of trainings, the content of each class of a Wisard (its example count and every RAM cell) is determined by the multiset of examples trained with that label and by that class's addressing alone. Training order, interleaving with other labels, splitting one call into several, list or DataSet form, and verbose make no difference, and training one label never changes what another label knows.",
 ['histories'],"every interleaving of train calls over several labels and entries, in every batching",
 "Tests train once, in one call, in one order, and check only the predicted labels.",
 [WIS,DIS,RAM],[('label dispatch','Wisard::train'),('one discriminator per label','Wisard::discriminators')],['json()','classify','getMentalImages'],
 [('discriminators','label -> discriminator',WIS)])
p('C06','Untraining an example undoes its training exactly',
 "leaveOneOut / leaveMoreOut of examples that were trained before leaves a Wisard answering every query (classification, mental images, example counts, saved content) as if those examples had never been trained, in any order and any interleaving with training, and also after saving and restoring in between; a class all of whose examples were untrained stays known but empty. Untraining with a label the model does not know changes nothing.",
 ['histories'],"every interleaving of train, leaveOneOut, leaveMoreOut and save/restore in which each untrained example was trained before",
 "No test calls leaveOneOut or leaveMoreOut at all.",
 [WIS,DIS,RAM],[('decrement','RAM::untrain'),('count','Discriminator::untrain'),('batch','Wisard::leaveMoreOut')],['classify','getMentalImages','json()'])
p('C07','A model restored from its JSON is indistinguishable from the original',
 "For every reachable Discriminator, Wisard or ClusWisard (including untrained ones, any labels, any options, any counts), building a new model from json() gives one that answers every query identically and whose own json() carries the same content. Driving original and restored model through the same further operations keeps them identical, wherever those operations do not draw a fresh random addressing.",
 ['histories','configurations'],"every model history up to the restore point, every option setting, every continuation",
 "Tests restore once after one fixed training and compare predicted labels of the training entries; untrained models, options, untraining, later training and unusual labels are never covered.",
 [DIS,WIS,CW,CLU,RDH],[('write','Discriminator::json/getJSON, Wisard::json, ClusWisard::json, Cluster::getJson'),('read','Discriminator(json), Wisard(string), ClusWisard(string), Cluster(json)')],['json()','constructors from string'])
p('C08','File-backed saves reload to the same model or report failure',
 "json(True, path) stores the RAM content in files such that restoring from the returned document gives a model indistinguishable from the original, for all three models, and every earlier save stays restorable whatever random file names are drawn and however often one saves to the same path. If the content cannot be written completely, or a file it refers to is missing, cannot be read completely or holds too few RAMs when restoring, an error is raised instead of silently losing knowledge.",
 ['histories','fault_sequences','configurations'],"every sequence of trainings and saves, every outcome of the random file name, every failing open or write",
 "No test saves with huge=True.",
 [DIS,WIS,CLU,UT],[('write','Discriminator::getRAMsData'),('read','Discriminator::setRAMsData'),('file name','getRandomString')],['json(True,path)','constructors from string','files under path'])
p('C09','jsonConfig restores an untrained model with the same configuration',
 "A Discriminator or Wisard built from jsonConfig() of any model has the same options, classes and addressing but no knowledge: it has seen no example and no RAM answers anything. Training it with the same examples makes it indistinguishable from the original, and a ClusWisard built from jsonConfig() has the same options and behaves like a new one.",
 ['histories','configurations'],"every model history before and after the restore, every option setting",
 "No test calls jsonConfig.",
 [DIS,WIS,CW],[('write','Discriminator::jsonConfig, Wisard::jsonConfig, ClusWisard::jsonConfig'),('read','Discriminator(json)')],['jsonConfig()'])
p('C10','Base64 coding is lossless and standard',
 "Encoding any byte string yields its standard padded Base64 text (RFC 4648), and decoding that text gives back exactly the same bytes, including the empty string, NUL bytes and bytes above 127. Coding one string never influences the coding of another.",
 ['inputs'],"every byte string (exhaustive up to 3 bytes, all block structures beyond)",
 "test.cc encodes one ASCII string and asserts nothing.",
 [UT],[('codec','Base64::encode / Base64::decode')],['Base64 (C++ header)','BinInput.data','RAMDataHandle.data'])
p('C11','BinInput is a faithful packed array of bits',
 "A BinInput of n bits reads back exactly the 0/1 values it was built from or that were last set, for every n and position; a new one of given size is all zeros; setting one bit to 0 or 1 changes that bit only, other values are refused; size() is n. A BinInput built from data() of another is equal to it, and reading or writing at or beyond size() raises an error and changes nothing.",
 ['inputs','histories'],"every length, bit pattern and sequence of get/set operations",
 "No test uses BinInput.",
 [BIN,UT],[('bit addressing','BinInput::get / set'),('length bookkeeping','BinInput::size / remain'),('text form','BinInput::data / BinInput(string)')],['BinInput'])
p('C12','DataSet keeps its entries and labels, in memory and through files',
 "A DataSet is an ordered list of entries with optional labels: add appends, get(i) and getLabel(i) return what was added i-th, getLabel of an unlabelled entry and any access out of range raise an error; an entry that is refused leaves nothing, not even its label. Saving changes nothing observable, and loading the file just saved gives exactly the same list (also for empty sets, unlabelled entries, arbitrary label text and repeated saves to the same prefix), or raises an error when the file cannot be written or read completely.",
 ['histories','inputs'],"every sequence of add, save and load operations over all label kinds and entry lengths",
 "No test uses DataSet.",
 [DS,BIN,UT],[('list and labels','DataSet::add / get / getLabel'),('file format','DataSet::save / DataSet(string)')],['DataSet'])
p('C13','RAMDataHandle edits exactly the cell it is told to',
 "A RAMDataHandle built from saved RAM data shows exactly the address/value pairs of every RAM in it; set changes only the given cell, get and compare change nothing and an absent cell reads as 0, over the whole 64-bit address range. data() of a handle, or the data saved by a model, can be decoded again to the same content, compare is true exactly for handles with equal content, edited data put back into a saved model takes effect exactly on that cell, and a file that cannot be written or read completely raises an error.",
 ['histories','inputs'],"every sequence of get, set, data, compare and re-decode over several RAMs, addresses and values",
 "No test uses RAMDataHandle.",
 [RDH,BIND],[('decode','RAMDataHandle::setData / dataToRam'),('encode','RAMDataHandle::data'),('cell access','RAMDataHandle::get / set')],['RAMDataHandle'])
p('C14','Packed inputs give the same results as lists',
 "Training and classifying with BinInput or DataSet objects gives exactly the results of training and classifying with the equivalent 0/1 lists, for Discriminator and Wisard, for every entry size (also not a multiple of 8), in any mixture of the two forms within one model.",
 ['inputs','histories'],"every entry of every small size, every mixture of forms over a training history",
 "No test trains or classifies with BinInput or DataSet.",
 [BIN,DS,DIS,WIS,WW],[('templates over the input type','RAM/Discriminator/Wisard train and classify templates')],['Discriminator','Wisard'])
p('C15','Clusters grow by the documented score/threshold rule within their limit',
 "Supervised ClusWisard training gives each example to every discriminator of its label whose score (mean RAM response divided by the largest) reaches min(1, minScore + examples/threshold); if there is none, a new discriminator is opened while the label has fewer than discriminatorLimit, otherwise the best-scoring one learns it. Hence no label ever exceeds its limit, every example is learned by at least one discriminator of its own label, and no other label is touched.",
 ['histories','configurations'],"every sequence of labelled examples, every minScore, threshold and discriminatorLimit, every random addressing",
 "Tests train five entries once and check only predicted labels.",
 [CLU,CW],[('growth rule','Cluster::train'),('score','Cluster::getScore')],['json()["clusters"]'],
 [('discriminators','ordered discriminators of a label',CLU)])
p('C16','Semi-supervised training learns exactly the unlabelled entries, afterwards',
 "ClusWisard.train with a dictionary of labels first trains the labelled entries in order, then each remaining entry, in order and exactly once, under the label the model gives it at that moment. The outcome equals doing these steps one by one through supervised training and classification; entries keep their own index whatever subset is labelled, and keys that are not indices of entries are ignored (a call with more labels than entries, or with no usable key, is refused).",
 ['inputs','histories'],"every set of entries, every subset of labelled indices including keys out of range, every earlier training",
 "One test with two labels whose entries happen to make the mistake invisible; it only checks the labelled entries' predictions.",
 [CW],[('two passes','ClusWisard::train(images, map)'),('pseudo label','ClusWisard::train(image)')],['json()','getMentalImages','classify'])
p('C17','Unsupervised learning accumulates and is separate from supervised classes',
 "trainUnsupervised follows the same growth rule as labelled clusters with the model's own options (base included), accumulates over calls (splitting one call into several changes nothing), never opens more than discriminatorLimit clusters, and works the same whether or not supervised classes exist. classifyUnsupervised returns the number of a cluster with the best score under the bleaching rule with confidence 1 (bleaching on or off as configured); neither operation changes supervised knowledge, nor the other way round.",
 ['histories','configurations'],"every interleaving of supervised and unsupervised training and classification, in every batching",
 "Tests call trainUnsupervised once on a fresh model and assert nothing about the outcome.",
 [CW,CLU],[('creation','ClusWisard::trainUnsupervised'),('answers','ClusWisard::classifyUnsupervised')],['json()["unsupervisedCluster"]','classifyUnsupervised'])
p('C18','ClusWisard answers with the class of a best-scoring discriminator',
 "ClusWisard.classify scores every discriminator of every label with the bleaching rule (as Wisard does for classes) and returns, unaltered, the label that owns a discriminator of highest score. Any label text is returned exactly as trained, including text with colons, and the answer is the same from Python and C++ and does not depend on the other entries in the call.",
 ['inputs','configurations','histories'],"every matrix of per-discriminator counts, every label text, confidence and bleaching setting",
 "Tests classify five separable entries with two plain labels.",
 [CW,CWW,BL],[('scores per discriminator','ClusWisard::classify'),('label recovery','substr on \"::\"'),('Python path','ClusWisardWrapper::pyClassify')],['ClusWisard.classify'])
p('C19','Mental images count what was learned at each position',
 "The mental image of a discriminator gives for every entry position the number of trained examples with a non-zero value there, added over all RAM inputs reading that position (so exactly that number where it is read once, and 0 where it is never read). It holds for every address size, base, repetition and after untraining; Wisard reports one per class and ClusWisard one per discriminator of each label, in order.",
 ['histories','inputs','configurations'],"every training history, mapping, base and address size up to 64",
 "One test with address size 3, base 2 and four entries.",
 [RAM,DIS,WIS,CLU,CW],[('per-address decomposition','RAM::getMentalImage / convertToBase'),('sum over RAMs','Discriminator::getMentalImage')],['getMentalImages','getMentalImage'])
p('C20','Reported degrees and confidence describe the returned decision',
 "With returnActivationDegree, returnConfidence or returnClassesDegrees set, classify returns for each entry a dictionary with the class it would return without them and only the requested fields: activationDegree is the fraction of the winner's RAMs that count for it at the deciding threshold, confidence is the winner's lead over the runner-up divided by the winner's score (0 when the score is 0), classesDegrees lists the scores as shares of their total. All of them are finite and lie in [0,1], and the shares add up to 1 unless all scores are 0.",
 ['inputs','configurations'],"every matrix of per-class per-RAM counts and every combination of the three flags, confidence and bleaching, for Wisard and ClusWisard",
 "No test sets any of the three flags.",
 [WW,CWW,BL],[('result assembly','WisardWrapper::setClassifyOutput, ClusWisardWrapper::pyClassify'),('confidence','Bleaching::getConfidence')],['Wisard.classify and ClusWisard.classify in Python'])
p('C21','Queries never change a model',
 "classify, classifyUnsupervised, getMentalImage(s) (also for unknown labels), json, jsonConfig, json(True, path), getsizeof and rejected queries leave a model exactly as it was: inserting any of them anywhere in a history changes no later answer and no saved content, and the same query asked twice gives the same answer.",
 ['histories'],"every history of trainings with queries inserted at every point",
 "Tests never query between trainings and never compare a model before and after a query.",
 [WIS,CW,CLU,DIS,RAM],[('read paths','classify / getMentalImage(s) / json / getsizeof')],['all query methods'])
p('C22','Invalid input is refused with an error and leaves no trace',
 "Entries of the wrong size or with values outside 0..base-1 at a position that is read, label lists of the wrong length, unusable configurations and empty inputs never crash the process: they raise an error (an empty list of entries is simply an empty task). A rejected example is not learned even partly and creates no class or cluster, a new class must have the entry size of the model, a refused call with mismatched lists learns nothing, and the model goes on working as if only the examples before the rejected one had been given.",
 ['inputs','histories'],"every invalid call inserted at every point of a training history, for every model",
 "No test makes an invalid call.",
 [DIS,RAM,WIS,CW,UT,KC],[('entry checks','checkEntrySize / checkPos / checkInputSizes / checkConfidence'),('configuration checks','checkConfigInputs / checkAddressSize')],['exceptions','json()','classify'])
p('C23','Damaged saved text never crashes or corrupts the process',
 "Building a Discriminator, Wisard, ClusWisard, BinInput, RAMDataHandle or DataSet from truncated or altered saved text or files either raises an error or gives an object on which every operation (training, querying, saving) works or raises an error in turn; it never reads or writes outside its memory, divides by zero or loops forever.",
 ['fault_sequences','inputs'],"every truncation and every single-token alteration of saved documents, data strings and files",
 "Tests only load text the library has just produced.",
 [DIS,WIS,CW,CLU,RDH,BIN,DS,UT],[('parsing','constructors from string'),('decoding','Base64::decode')],['constructors from string','DataSet(file)'])
p('C24','Synthesizer draws every position at its learned intensity',
 "make() returns one value per position of the mental image, 0 or 1; over the equally likely outcomes of its random draw, position i is 1 in exactly intensity[i] of max(intensity) outcomes, so positions with intensity 0 are never on and those with the maximum always are. It works for every image including all-zero and empty ones, and repeated draws are fresh: they follow the random generator and are not frozen to the clock.",
 ['inputs','schedules'],"every small mental image and every outcome of the random generator over several draws",
 "No test uses Synthesizer.",
 [SY,UT],[('table','Synthesizer::makeCube'),('draw','Synthesizer::make / randint')],['Synthesizer.make'])
p('C25','KernelCanvas output is well formed and marks the nearest kernels',
 "transform returns numberOfKernels*bitsByKernel values, all 0 or 1, with all bits of a kernel equal; each point of the sequence (with useDirection: the point together with its two predecessors and the directions between them) turns on exactly the k kernels nearest to it, k being activationDegree*numberOfKernels rounded to the nearest whole number (halves up), so between k and min(numberOfKernels, k*points) kernels are on. It is deterministic for one object, leaves the object unchanged, stays inside its memory for every dimension, sequence length and useDirection setting, and refuses points of another dimension and impossible parameters.",
 ['inputs','configurations'],"every small combination of dimension, kernels, bits, activation degree, useDirection and sequence, from Python and C++",
 "One test transforms one 2-dimensional sequence with useDirection off and checks only that values are 0 or 1.",
 [KC,KW],[('nearest kernels','KernelCanvas::calculateDistances / activateKernels'),('point features','KernelCanvas::calculatePoint'),('parameter checks','checkInputs / checkDimension')],['KernelCanvas.transform'])
p('C26','Objects are independent of each other',
 "Operations on one object never change what any other object answers or saves, whether the objects were built separately, restored from the same text, or (in C++) copied from one another: a copied model starts equal and then goes its own way, and destroying one leaves the others intact. The same operations on two objects with the same addressing give the same results whatever is done to third objects in between.",
 ['histories'],"every interleaving of operations on two or three live objects, with copies and destructions at every point",
 "Every test builds one object and uses it alone.",
 [CLU,CW,WIS,DIS,RDH,BIN,DS,UT],[('value semantics','Cluster::discriminators, class members'),('shared statics','Base64::indexMap')],['all classes'])
p('C27','Python package and C++ header are the same library',
 "For the same options and the same calls with the same addressing, the Python package, the shipped single C++ header and a header freshly generated from the sources return the same values, accept and reject the same calls, and each can restore what the other saved.",
 ['programs','configurations'],"every sequence of operations up to a depth over the shared public API, with every option",
 "The Python tests and the C++ program are separate, the latter asserts nothing, and results are never compared.",
 [HDR,'generate_include.py',BIND,WW,CWW,DW,KW],[('generated header','generate_include.py'),('bindings','PYBIND11_MODULE and the wrapper constructors')],['both APIs'])
p('C28','Objects may be used from several threads at once',
 "Different objects (models, data sets, handles, canvases, synthesizers) may be built, trained, queried, saved, restored and destroyed by different threads at the same time, and one object may be queried by several threads as long as none changes it: no two such operations touch the same memory without synchronisation, whatever they do before and whether or not they are refused. So no schedule of the threads gives anything that one after the other would not give.",
 ['schedules','histories'],"every ordered pair of operations of the public API in two threads, after every short history, on two objects or as queries of one",
 "Tests run in one thread.",
 [HDR,UT,RAM,DIS,WIS,CLU,CW,BIN,DS,RDH,KC,SY],[('shared tables','Base64::indexMap, charsMap'),('members of an object','the classes of src/models and src/data')],['all classes'])
p('C29','Nothing is left behind: memory and file descriptors are given back',
 "When an object is destroyed, everything it took is given back, whatever was done with it, including refused calls and saves or restores that failed; building an object that is refused leaves nothing either. Asking an object (classifying, saving, images, sizes) again and again does not make it hold more memory or more file descriptors.",
 ['histories'],"every sequence of operations up to a depth on every kind of object, ended by its destruction; every query repeated",
 "No test looks at memory or descriptors.",
 [RAM,DIS,WIS,CLU,CW,BIN,DS,RDH,KC,SY,BIND],[('ownership','destructors and members of all classes'),('files','std::ifstream / std::ofstream in Discriminator, DataSet, RAMDataHandle')],['all classes'])
p('C30','Running out of memory is reported and leaves no half-learned example',
 "Whenever any request for memory made by an operation (other than reading or writing JSON text) cannot be met, once or from then on, the operation raises an error or still does all its work: it never crashes, loses memory or returns something else. Every example of the call is then learned or unlearned completely or not at all, no empty class, cluster or discriminator is left, and the object goes on working; a query leaves no trace.",
 ['crash_points','histories'],"every request for memory of every operation, failing alone or with all later ones, after every short history",
 "No test runs out of memory.",
 [RAM,DIS,WIS,CLU,CW,BIN,DS,RDH,KC,SY],[('all or nothing','Discriminator::train / Cluster::train'),('new classes','Wisard::train / ClusWisard::train / Cluster::makeDiscriminator')],['all classes'])
p('C31','The saved form is fixed and can be read by others and by other versions',
 "The text of a saved model, packed input, data set or RAM data is an interface: JSON with fixed field names, RAMs joined by '.', each cell base64 of an 8 byte little-endian address (sum of value_i*base^i over the RAM's positions in order) and a 4 byte count, packed inputs as a byte with the number of unused bits and the bits highest first, data sets as base64(label)#packed joined by '.'. A document written by an independent writer in that form restores to exactly the model it describes, whatever the order of fields and cells, spacing, escapes, unknown or missing optional fields; an independent reader finds exactly what the model holds in what it saves. Text saved by version 1.6.3 stays readable.",
 ['histories','inputs'],"every content reachable by short trainings, in every shape of document, in both directions",
 "Tests restore only what the same build just saved, so a writer and a reader changed together pass.",
 [DIS,RDH,WIS,CLU,CW,BIN,DS,UT],[('writers','json() / jsonConfig() of the models, RAMDataHandle::data'),('readers','constructors taking text'),('coding','convertToValue / convertFromValue, Base64')],['Discriminator','Wisard','ClusWisard','RAMDataHandle','BinInput','DataSet'])
p('C32','Arguments and results are values',
 "A call reads its arguments and never changes them; nothing the caller does with them afterwards (changing, emptying, destroying or reusing them) reaches the object, and what the object does later does not reach them. What a call returns (answers, votes, images, cells, entries, texts) is the caller's own: it stays as it was whatever happens to the object later, also its destruction, and changing it changes no object. Arguments may be the object's own entries or results.",
 ['histories','inputs'],"every short sequence of calls with kept, changed, destroyed and overlapping arguments and with kept and changed results",
 "Tests pass literals and look at results at once.",
 [DIS,WIS,CLU,CW,BIN,DS,RDH,KC,SY,BIND],[('arguments by reference','train / classify / add / compare / constructors'),('results','getMentalImages, RAMDataHandle::get, DataSet::get'),('labels of semi-supervised training','ClusWisard::train(images, labels)')],['all classes'])
p('C33','Options mean the same however they are given',
 "What a new model or KernelCanvas is depends only on the values of its options: leaving an option out equals giving its documented default (bleachingActivated true, verbose false, ignoreZero false, completeAddressing true, base 2, confidence 1, return flags false, no indexes or mapping; bitsByKernel 3, activationDegree 0.07, useDirection false), the order of keyword options does not matter, equivalent C++ constructors, calls of json() and documents that omit options give the same. Each option has its effect and no other's, and shows its value in the saved text. A new object has learned nothing.",
 ['configurations','inputs'],"every set of options, given or left out in every pattern and several orders, through every constructor and through documents",
 "Tests give a handful of fixed sets of options and never compare two ways to give them.",
 [DIS,WIS,CW,KC,WW,CWW,DW,KW],[('defaults','constructors of Discriminator / Wisard / ClusWisard / KernelCanvas'),('keyword options','src/wrappers')],['constructors','json()'])
p('C34','getsizeof() measures what a model holds',
 "getsizeof() is a positive function of what a model holds: models with the same classes, discriminators, RAMs and number of stored cells have the same size, however they came to it and also when restored. Each stored cell adds the same positive amount everywhere, and queries, or learning what only raises counts of known cells, change nothing.",
 ['histories','configurations'],"every history of training, unlearning, queries and restoring up to a length in every configuration, all sizes met being compared with each other",
 "One test asserts that the result is an int.",
 [RAM,DIS,WIS,CLU,CW],[('size','getsizeof() of RAM / Discriminator / Wisard / Cluster / ClusWisard')],['getsizeof'])
p('C35','Calls do what is asked and nothing else, whatever the surroundings',
 "Nothing is printed unless verbose is on; then train, classify and leaveMoreOut show on standard output which of how many examples they have come to, and nothing else differs. No call touches a file it was not asked to write, standard error or input, the working directory, locale, formats of streams, environment, signals, umask, rounding, threads or descriptors, also when it is refused. Conversely locale, stream formats and errors, working directory, umask and closed standard streams do not change any answer or saved text.",
 ['histories','configurations'],"every short sequence of calls of every kind of object, verbose or not, with everything visible of the process compared around each call, and in each of six surroundings",
 "Tests look only at answers, in one surrounding.",
 [WIS,CW,DIS,DS,RDH,WW,CWW,UT],[('progress','verbose in Wisard / ClusWisard and their wrappers'),('files','Discriminator::saveRAMData, RAMDataHandle, DataSet::save')],['all classes'])
p('C36',"Work is in proportion to what a call is given and what the object holds",
 "Training, classifying, scoring, saving, restoring, comparing or copying twice as much takes about twice as much work and memory, never its square: n examples, classes, RAMs, cells, rows of a DataSet or frames of a kernel. Learning and answering do not become slower with the number of examples, repetitions or questions that came before once no new cell appears, and bleaching does not depend on how large the counts are, only on how many different ones there are. The size of the address space (addressSize, base) costs nothing by itself: only cells that were written are held.",
 ['histories','inputs'],"every operation of every kind of object, in every configuration and at every size of a range, after every length of history, for every pattern and magnitude of counts within bounds",
 "Tests use inputs of a few bits and examples, on which any algorithm is fast.",
 [WIS,CW,DIS,DS,RDH,UT],[('bleaching','Bleaching::make, Bleaching::getAmbiguity'),('memory','RAM::train, RAM::getVote'),('copies','train, classify, getters, getJSON and setJSON of the models')],['all classes'])
p('C37',"From Python, every value means what it says or is refused without a trace",
 "In every place of every argument, option and constructor, a Python value either does what the plain list, number, text or truth value it stands for does (tuples, arrays, ranges, sequences and subclasses of one's own, __index__, bool), or the call raises an exception and changes nothing: no fraction or huge number is cut, no text is taken for a list, None for nothing or one element more or less than there is. Arguments are read completely before anything is done, so what their reading raises, changes or calls on the same object happens before the call, and a call of another Python thread comes before or after, never in between. Objects of derived classes behave like those of the class, and no argument or result is held on to.",
 ['histories','inputs','schedules'],"every call of the binding x every place inside its arguments x some forty kinds of Python values, alone and in pairs; every opportunity to call the object while an argument is read or another thread may run",
 "Tests pass plain lists of ints and texts.",
 ['src/wisard_bind.cc',WW,CWW],[('overloads','PYBIND11_MODULE(wisardpkg, m)'),('options','constructors of the wrappers with py::kwargs')],['all classes of the Python module'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import re
for x in P:
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement'])); 
    if n>3: print(x['id'],n)
try:
    import jsonschema
    for x in P: jsonschema.validate(x,S)
    print('valid',len(P))
except ImportError: print('nojs')
