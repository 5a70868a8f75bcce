"""C30  Training a network on labelled chips (keras and tensorflow are not installed: a small functional stand-in takes their place)."""
import json
import math
import os
import shutil
import sys
import types

import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, q, rng, seeds, side

P = "C30"
results_stay(P)
assume_note(P, "keras and tensorflow are not installed: a stand-in with keras's documented meaning of generators, layers, fitting, checkpoints and logs takes their place, in which a network's weights, losses and accuracies are scripted; at least one image per class")


# ---- the stand-in ------------------------------------------------------------------------------------------------

class Layer:
    def __init__(self, name, units=None, activation=None, rate=None):
        self.name, self.units, self.activation, self.rate = name, units, activation, rate
        self.trainable, self.weight, self.source = True, 0, None

    def __call__(self, x):
        self.source = x
        return Tensor(self)


class Tensor:
    def __init__(self, layer):
        self.layer = layer

    def chain(self):
        out, t = [], self
        while t is not None:
            out.append(t.layer)
            t = t.layer.source
        return out[::-1]


class Model:
    """a chain of layers; every epoch adds one to the weight of each layer that may change"""

    def __init__(self, inputs=None, outputs=None, name=None):
        self.input, self.output, self.name = inputs, outputs, name
        self.layers = outputs.chain()
        self.compiled, self.fits, self.script, self.loaded = None, [], None, None
        self.stop_training = False

    def compile(self, optimizer=None, loss=None, metrics=None, **kw):
        self.compiled = dict(optimizer=optimizer, loss=loss, metrics=metrics)

    def get_weights(self):
        return [(l.name, l.weight) for l in self.layers]

    def load_weights(self, fname, **kw):
        with open(fname) as f:
            w = json.load(f)["weights"]
        if len(w) != len(self.layers):
            raise ValueError("weights of another network")
        for l, (n, v) in zip(self.layers, w):
            l.weight = v
        self.loaded = fname

    def _dump(self, fname, kind):
        with open(fname, "w") as f:
            json.dump(dict(kind=kind, weights=self.get_weights()), f)

    def save(self, fname, overwrite=True, **kw):
        self._dump(fname, "model")

    def save_weights(self, fname, overwrite=True, **kw):
        self._dump(fname, "weights")

    def fit_generator(self, generator, steps_per_epoch=None, epochs=1, verbose=1, callbacks=None, validation_data=None, validation_steps=None, **kw):
        if self.compiled is None:
            raise RuntimeError("compile the network before training it")
        script = SCRIPT[0]
        callbacks = list(callbacks or [])
        for c in callbacks:
            c.set_model(self)
            c.on_train_begin()
        rec = dict(epochs=[], validation=[], start=self.get_weights())
        self.fits.append(rec)
        LAST[0] = self
        steps = len(generator) if steps_per_epoch is None else steps_per_epoch
        vsteps = validation_steps if validation_steps is not None else (len(validation_data) if validation_data is not None else 0)
        for e in range(epochs):
            seen, n = [], 0
            while n < steps:
                seen.append(next(generator))
                n += 1
            for l in self.layers:
                if l.trainable and l.units != 0:
                    l.weight += 1
            logs = dict(loss=script["loss"][e % len(script["loss"])], acc=script["acc"][e % len(script["acc"])])
            rec["epochs"].append(seen)
            if validation_data is not None:
                vseen, n = [], 0
                while n < vsteps:
                    vseen.append(next(validation_data))
                    n += 1
                rec["validation"].append(vseen)
                logs.update(val_loss=script["val_loss"][e % len(script["val_loss"])], val_acc=script["val_acc"][e % len(script["val_acc"])])
            for c in callbacks:
                c.on_epoch_end(e, logs)
        for c in callbacks:
            c.on_train_end()

    fit = fit_generator


SCRIPT, LAST = [None], [None]


class Callback:
    def set_model(self, model):
        self.model = model

    def on_train_begin(self, logs=None):
        pass

    def on_train_end(self, logs=None):
        pass

    def on_epoch_end(self, epoch, logs=None):
        pass


class ModelCheckpoint(Callback):
    def __init__(self, filepath, monitor="val_loss", verbose=0, save_best_only=False, save_weights_only=False, mode="auto", period=1):
        self.filepath, self.monitor, self.best_only, self.weights_only, self.period = filepath, monitor, save_best_only, save_weights_only, period
        if mode not in ("auto", "min", "max"):
            mode = "auto"
        if mode == "auto":
            mode = "max" if "acc" in monitor or monitor.startswith("fmeasure") else "min"
        self.better = (lambda a, b: a > b) if mode == "max" else (lambda a, b: a < b)
        self.best, self.since = (-math.inf if mode == "max" else math.inf), 0

    def on_epoch_end(self, epoch, logs=None):
        self.since += 1
        if self.since < self.period:
            return
        self.since = 0
        name = self.filepath.format(epoch=epoch + 1, **logs)
        if self.best_only:
            v = logs.get(self.monitor)
            if v is None or not self.better(v, self.best):
                return
            self.best = v
        (self.model.save_weights if self.weights_only else self.model.save)(name)


class EarlyStopping(Callback):
    pass


class TensorBoard(Callback):
    def __init__(self, log_dir="./logs", **kw):
        self.log_dir = log_dir

    def set_model(self, model):
        Callback.set_model(self, model)
        with open(os.path.join(self.log_dir, "events.out"), "a") as f:
            f.write("x")


class DirectoryIterator:
    """images of the subfolders of a folder, classes in the order of their names, each image once per round in random order"""

    def __init__(self, directory, datagen, target_size, batch_size, class_mode, shuffle, seed, classes):
        from PIL import Image
        self.directory, self.batch_size, self.target_size, self.class_mode, self.datagen = directory, batch_size, tuple(target_size), class_mode, datagen
        names = classes if classes else sorted(d for d in os.listdir(directory) if os.path.isdir(os.path.join(directory, d)))
        self.class_indices = dict(zip(names, range(len(names))))
        self.filenames, self.classes = [], []
        for n in names:
            for f in sorted(os.listdir(os.path.join(directory, n))):
                if f.lower().endswith((".png", ".tif", ".tiff", ".jpg", ".jpeg", ".bmp", ".ppm")):
                    self.filenames.append(os.path.join(n, f))
                    self.classes.append(self.class_indices[n])
        self.samples = self.n = len(self.filenames)
        self.pil, self.shuffle, self.g, self.order = Image, shuffle, rng(seed or 0), []

    def __len__(self):
        return -(-self.n // self.batch_size)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.order:
            self.order = list(self.g.permutation(self.n) if self.shuffle else range(self.n))
        take, self.order = self.order[:self.batch_size], self.order[self.batch_size:]
        x = []
        for i in take:
            with self.pil.open(os.path.join(self.directory, self.filenames[i])) as im:
                im = im.convert("RGB")
                ny, nx = self.target_size
                if im.size != (nx, ny):
                    im = im.resize((nx, ny), self.pil.NEAREST)
                x.append(self.datagen.change(np.array(im, "float32")))
        y = np.zeros((len(take), len(self.class_indices)), "float32")
        y[np.arange(len(take)), [self.classes[i] for i in take]] = 1
        if self.class_mode != "categorical":
            y = np.array([self.classes[i] for i in take], "float32")
        return np.array(x), y

    next = __next__


class ImageDataGenerator:
    def __init__(self, rescale=None, horizontal_flip=False, vertical_flip=False, **kw):
        self.rescale, self.h, self.v, self.g = rescale, horizontal_flip, vertical_flip, rng(len(GENERATORS))
        GENERATORS.append(self)

    def change(self, a):
        if self.h and self.g.random() < 0.5:
            a = a[:, ::-1]
        if self.v and self.g.random() < 0.5:
            a = a[::-1]
        return a * self.rescale if self.rescale else a

    def flow_from_directory(self, directory, target_size=(256, 256), color_mode="rgb", classes=None, class_mode="categorical", batch_size=32, shuffle=True, seed=None, **kw):
        if color_mode != "rgb":
            raise ValueError("the stand-in knows colour images only")
        return DirectoryIterator(directory, self, target_size, batch_size, class_mode, shuffle, seed, classes)


GENERATORS = []


def network(kind):
    def make(include_top=True, weights="imagenet", **kw):
        x = Tensor(Layer("input", units=0))
        inp = x
        for i in range({"VGG16": 3, "VGG19": 4, "ResNet50": 5}.get(kind, 2)):
            x = Layer("%s_%d" % (kind, i))(x)
        if include_top:
            x = Layer("top", units=1000, activation="softmax")(x)
        m = Model(inputs=inp, outputs=x, name=kind)
        m.include_top, m.weights_from = include_top, weights
        return m
    make.__name__ = kind
    return make


def module():
    if "keras" not in sys.modules:
        mods = {}

        def mod(name, **names):
            m = types.ModuleType(name)
            m.__dict__.update(names)
            m.__path__ = []
            mods[name] = m
            if "." in name:
                setattr(mods[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
            return m

        class Anything:
            def __init__(self, *a, **kw):
                self.__dict__.update(kw)

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                return Anything()

        class Optimizer:
            def __init__(self, lr=0.001, **kw):
                self.lr = lr

        mod("keras")
        mod("keras.applications")
        mod("keras_applications")
        for pack, f, name in (("keras", "vgg16", "VGG16"), ("keras", "vgg19", "VGG19"), ("keras", "resnet50", "ResNet50"), ("keras_", "inception_v3", "InceptionV3"), ("keras_", "mobilenet", "MobileNet"), ("keras_", "mobilenet_v2", "MobileNetV2")):
            for base in (("keras.applications",) if pack == "keras" else ("keras.applications", "keras_applications")):
                mod(base + "." + f, **{name: network(name)})
                setattr(mods[base], name, getattr(mods[base + "." + f], name))
        mod("keras.preprocessing")
        mod("keras.preprocessing.image", DirectoryIterator=DirectoryIterator, ImageDataGenerator=ImageDataGenerator)
        mod("keras.layers", Dense=lambda units, activation=None, **kw: Layer("dense", units=units, activation=activation), GlobalAveragePooling2D=lambda **kw: Layer("pool", units=0),
            Dropout=lambda rate, **kw: Layer("dropout", units=0, rate=rate))
        mod("keras.models", Model=Model)
        mod("keras.optimizers", Optimizer=Optimizer, Adam=type("Adam", (Optimizer,), {}), SGD=type("SGD", (Optimizer,), {}))
        mod("keras.callbacks", Callback=Callback, ModelCheckpoint=ModelCheckpoint, TensorBoard=TensorBoard, EarlyStopping=EarlyStopping)
        mod("keras.backend", set_session=lambda s: None)
        mod("keras.backend.tensorflow_backend", set_session=lambda s: None)
        mod("tensorflow", ConfigProto=Anything, GPUOptions=Anything, Session=Anything, Tensor=Tensor)
        sys.modules.update(mods)
    from resippy.image_recognition.neural_net_model_training import keras_model_training
    return keras_model_training


# ---- the property ------------------------------------------------------------------------------------------------

NAMES = ["tree", "car", "Car", "house 2", "a", "b.c", "10", "9", "water", "Zebra", "élan", "_x"]


def folders(ctx, where, classes, counts, size, seed):
    """class folders with images whose top left pixel tells which image it is"""
    from PIL import Image
    d = ctx.path(where)
    g = rng(seed)
    out = {}
    k = 0
    for n, m in zip(classes, counts):
        os.makedirs(os.path.join(d, n))
        for i in range(m):
            a = g.integers(0, 256, (size, size, 3)).astype("uint8")
            a[0, 0] = a[-1, 0] = a[0, -1] = a[-1, -1] = (k % 251, 17 * (where == "val"), 99)
            Image.fromarray(a).save(os.path.join(d, n, "%04d.png" % i))
            out[k % 251] = (n, a)
            k += 1
    return d, out


def in_batches(batches):
    return [(x, y) for xs, ys in batches for x, y in zip(xs, ys)]


case_t = fixed(classes=st.lists(st.sampled_from(NAMES), min_size=2, max_size=5, unique=True), nt=st.integers(1, 7), nv=st.integers(1, 4), size=st.integers(2, 6), same_size=st.booleans(), batch=st.integers(1, 9), default_batch=st.booleans(),
               rescale=st.sampled_from(["default", "default", 1.0, 1.0 / 65535]), h=st.booleans(), v=st.booleans(), epochs=st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(1, 7), st.integers(8, 40)), val=st.lists(st.integers(1, 12).map(lambda v: v / 8), min_size=7, max_size=7), acc=st.lists(st.integers(0, 8).map(lambda v: v / 8), min_size=7, max_size=7),
               net=st.sampled_from(["VGG16", "VGG19", "ResNet50"]), top=st.booleans(), final=st.booleans(), frozen=st.sampled_from(["all", "no", "again"]), weights=st.booleans(), fname=st.sampled_from([None, "net.h5", "my net.hdf5"]),
               drop=st.sampled_from([None, 0.0, 0.35]), dense=st.sampled_from([None, 7]), loss=st.sampled_from([None, "mse"]), opt=st.booleans(), metrics=st.sampled_from([None, ["accuracy", "mae"]]), seed=seeds())


@sub(P, "training", case_t, quick=400, rule="the lowest validation loss is neither that of the last epoch nor, if there are several, that of the first, and more than one class")
def training(case, ctx):
    """the network kept is that of the lowest validation loss; every image of the training folder is seen in each epoch, with its class, and every validation image judges it; labels are listed in the order of the network's outputs"""
    m = module()
    from resippy.utils import file_utils
    c = case
    g = rng(c["seed"])
    size = c["size"]
    img = size if c["same_size"] else size + 3
    for d in ("train", "val", "out"):
        shutil.rmtree(ctx.path(d), ignore_errors=True)
    tdir, timgs = folders(ctx, "train", c["classes"], [1 + int(v) for v in g.integers(0, c["nt"], len(c["classes"]))], size, c["seed"] + 1)
    vdir, vimgs = folders(ctx, "val", c["classes"], [1 + int(v) for v in g.integers(0, c["nv"], len(c["classes"]))], size, c["seed"] + 2)
    kw = {}
    if not c["default_batch"]:
        kw["batchsize"] = c["batch"]
    if c["rescale"] != "default":
        kw["rescale"] = c["rescale"]
    if c["h"]:
        kw["horizontal_flip"] = True
    if c["v"]:
        kw["vertical_flip"] = True
    tg, vg = m.setup_train_and_val_image_generators(img, tdir, vdir, **kw)
    ctx.equal(dict(m.get_class_indices(tg)), {n: i for i, n in enumerate(sorted(c["classes"]))}, "classes and their indices")
    out = ctx.path("out")
    os.makedirs(out)
    wfile = ctx.path("w.h5")
    loader = {"VGG16": m.load_vgg16_model, "VGG19": m.load_vgg19_model, "ResNet50": m.load_resnet50_model}[c["net"]]
    base = loader("/weights/%s.h5" % c["net"], **({} if c["top"] else {"include_top": False}))
    ctx.equal((base.name, base.include_top, base.weights_from), (c["net"], c["top"], "/weights/%s.h5" % c["net"]), "network loaded")
    n_base = len(base.layers)
    if c["frozen"] != "no":
        m.freeze_model_layers(base)
        ctx.equal([l.trainable for l in base.layers], [False] * n_base, "frozen layers")
        if c["frozen"] == "again":
            m.unfreeze_model_layers(base)
            ctx.equal([l.trainable for l in base.layers], [True] * n_base, "layers free again")
    kw = {}
    if c["final"]:
        extra = {}
        if c["drop"] is not None:
            extra["dropout"] = c["drop"]
        if c["dense"] is not None:
            extra["dense_connections"] = c["dense"]
        last = m.create_final_dense_softmax_layer(base, len(c["classes"]), **extra)
        chain = last.chain()
        ctx.equal([l.name for l in chain[:n_base]], [l.name for l in base.layers], "layers below the final ones")
        ctx.equal((chain[-1].name, chain[-1].units, chain[-1].activation), ("dense", len(c["classes"]), "softmax"), "final layer")
        ctx.equal([l.rate for l in chain if l.name == "dropout"], [0.2 if c["drop"] is None else c["drop"]], "share of weights dropped")
        ctx.equal([l.units for l in chain[n_base:-1] if l.name == "dense"], [128 if c["dense"] is None else c["dense"]], "connections before the final layer")
        kw["final_model_layers"] = last
    layers = chain if c["final"] else base.layers
    if c["weights"]:
        start = [(l.name, 100 * (i + 1)) for i, l in enumerate(layers)]
        with open(wfile, "w") as f:
            json.dump(dict(kind="weights", weights=start), f)
        kw["model_weights_file"] = wfile
    else:
        start = [(l.name, 0) for l in layers]
    if c["fname"]:
        kw["model_output_fname"] = c["fname"]
    if c["loss"]:
        kw["loss"] = c["loss"]
    if c["opt"]:
        kw["optimizer"] = sys.modules["keras.optimizers"].SGD()
    if c["metrics"]:
        kw["metrics"] = c["metrics"]
    n = c["epochs"]
    # longer runs go on as they began, with the best epoch anywhere
    val, acc = (c["val"] * 6)[:n], (c["acc"] * 6)[:n]
    if n > 7 and c["seed"] % 4:
        val[c["seed"] % n] = 0.0625
    SCRIPT[0] = dict(val_loss=val, val_acc=acc, loss=[5.0 - 0.1 * i for i in range(n)], acc=[0.1 * i for i in range(n)])
    LAST[0] = None
    m.train_model(base, tg, vg, out, n_epochs=n, **kw)
    model = LAST[0]
    ctx.check(model is not None and len(model.fits) == 1, "the network wasn't trained once")
    rec = model.fits[0]
    ctx.equal([tuple(v) for v in rec["start"]], start, "weights at the start")
    ctx.equal(model.compiled["loss"], c["loss"] or "categorical_crossentropy", "loss")
    ctx.equal(list(model.compiled["metrics"]), c["metrics"] or ["accuracy"], "metrics")
    ctx.equal(type(model.compiled["optimizer"]).__name__, "SGD" if c["opt"] else "Adam", "optimizer")
    ctx.equal(len(rec["epochs"]), n, "epochs")
    batch = 10 if c["default_batch"] else c["batch"]
    scale = 1.0 / 255 if c["rescale"] == "default" else c["rescale"]
    order = sorted(c["classes"])
    ways = []
    for part, imgs, flips in (("epochs", timgs, True), ("validation", vimgs, False)):
        for seen in rec[part]:
            got = in_batches(seen)
            ctx.equal(len(got), len(imgs), "images seen (%s)" % part)
            ctx.check(all(1 <= len(x) <= batch for x, _ in seen) and all(len(x) == batch for x, _ in seen[:-1]), "sizes of batches")
            ids = []
            for x, y in got:
                ctx.equal(x.shape, (img, img, 3), "shape of an image")
                px = np.round(x / scale).astype(int)
                k = int(px[0, 0, 0])
                ids.append(k)
                ctx.check(k in imgs, "an image of another folder")
                name, a = imgs[k]
                ctx.equal(int(px[0, 0, 1]), 17 * (part == "validation"), "folder of the images")
                ctx.equal([int(v) for v in y], [int(name == o) for o in order], "class of an image")
                if c["same_size"]:
                    fine = {"": a}
                    if flips and c["h"]:
                        fine["h"] = a[:, ::-1]
                    if flips and c["v"]:
                        fine.update({k + "v": f[::-1] for k, f in list(fine.items())})
                    turned = [k for k, f in fine.items() if np.array_equal(px, f)]
                    ctx.check(turned, "pixels of an image (%s)" % part)
                    if part == "epochs":
                        ways.append(turned[0])
            ctx.equal(sorted(ids), sorted(imgs), "images seen (%s)" % part)
    if len(ways) >= 60 and size > 2:
        for asked, k in ((c["h"], "h"), (c["v"], "v")):
            if asked:
                ctx.check(any(k in w for w in ways) and any(k not in w for w in ways), "%d images, flipped: %r" % (len(ways), sorted(set(ways))))
    best = int(np.argmin(val))
    f = os.path.join(out, c["fname"] or "trained_model.h5")
    ctx.check(os.path.exists(f), "no network was written")
    with open(f) as h:
        kept = json.load(h)
    frozen = c["frozen"] == "all"
    want = [(l.name, s[1] + (0 if l.units == 0 or (frozen and i < n_base) else best + 1)) for i, (l, s) in enumerate(zip(layers, start))]
    ctx.equal(kept["kind"], "model", "what was written")
    ctx.equal([tuple(w) for w in kept["weights"]], want, "weights of the network kept (validation losses %r)" % (val,))
    labels = file_utils.read_text_list_from_file(os.path.join(out, "labels.txt"))
    ctx.equal(labels, order, "labels")
    logs = [os.path.join(r, x) for r, _, fs in os.walk(os.path.join(out, "logs")) for x in fs]
    ctx.equal(len(logs), 1, "logs of the training")
    ctx.equal(sorted(os.listdir(out)), sorted(["labels.txt", "logs", os.path.basename(f)]), "files written")
    ctx.label(c["net"], "final" if c["final"] else "own_top", "frozen:" + c["frozen"], "best:" + ("first" if best == 0 else "last" if best == n - 1 else "middle"), "flips" if c["h"] or c["v"] else "plain")
    ctx.nontrivial(0 < best < n - 1)


again(P, "training", ("classes", "epochs", "net", "final", "batch"), 30)
