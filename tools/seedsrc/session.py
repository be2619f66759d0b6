SEEDS = [
dict(id="C28-dotted-script", property="C28",
  needs="a script whose own name or folder has a dot in it",
  breaks="the name of the log is cut at the first dot of the script's path: the log of another script of that folder is overwritten, or the name is empty",
  edits=[("echidna/utilities.py", '        current_module.rfind("/")+1:current_module.rfind(".")]',
          '        current_module.rfind("/")+1:].split(".")[0]')],
  shims=[],
  demo='''
import logging, os, shutil, sys, tempfile
from echidna import settings, utilities
d = tempfile.mkdtemp()
logging.disable(logging.NOTSET)
try:
    settings.user_profile["log_save_path"] = d + "/"
    ns = {"utilities": utilities}
    exec(compile("def go(**k): return utilities.start_logging(**k)", "/w/fit.v2.py", "exec"), ns)
    lg = ns["go"](short_name=True)
    lg.info("hello")
    logging.shutdown()
    assert os.listdir(d) == ["echidna.fit.v2.log"], os.listdir(d)
    assert lg.name == "fit.v2", lg.name
finally:
    shutil.rmtree(d)
'''),
dict(id="C28-extra-children", property="C28",
  needs="a message on a logger below \"extra\" rather than on \"extra\" itself",
  breaks="only the very logger \"extra\" is shown as bare text; messages of the loggers below it appear with a name in front",
  edits=[("echidna/utilities.py", "                logger = logger.parent\n", "                logger = logging.getLogger().parent\n")],
  shims=[],
  demo='''
import io, logging, os, shutil, sys, tempfile
from echidna import settings, utilities
d = tempfile.mkdtemp()
logging.disable(logging.NOTSET)
err, sys.stderr = sys.stderr, io.StringIO()
try:
    settings.user_profile["log_save_path"] = d + "/"
    utilities.start_logging()
    sys.stderr.seek(0); sys.stderr.truncate()
    logging.getLogger("extra.table").info("a | b")
    out = sys.stderr.getvalue()
    logging.shutdown()
finally:
    sys.stderr = err
    shutil.rmtree(d)
assert "extra" not in out and "a | b" in out, out
'''),
dict(id="C28-capture-once", property="C28",
  needs="a second script of the same process that asks for another capturing of warnings",
  breaks="only the first start of a process decides whether warnings are logged",
  edits=[("echidna/utilities.py", "    logging.captureWarnings(capture_warnings)\n",
          "    if not logger_set:\n        logging.captureWarnings(capture_warnings)\n")],
  shims=[],
  demo='''
import io, logging, os, shutil, sys, tempfile, warnings
from echidna import settings, utilities
d = tempfile.mkdtemp()
logging.disable(logging.NOTSET)
err, sys.stderr = sys.stderr, io.StringIO()
try:
    settings.user_profile["log_save_path"] = d + "/"
    utilities.start_logging(capture_warnings=False)
    utilities.start_logging(capture_warnings=True)
    warnings.simplefilter("always")
    warnings.warn("careful", RuntimeWarning)
    logging.shutdown()
    text = "".join(open(os.path.join(d, f)).read() for f in os.listdir(d))
finally:
    sys.stderr = err
    shutil.rmtree(d)
assert "careful" in text, text
'''),
dict(id="C28-cautious-later", property="C28",
  needs="cautious mode chosen after logging has started, then another script started",
  breaks="the mode is looked at only by the first start of a process: user warnings of later, cautious scripts are not raised",
  edits=[("echidna/utilities.py", '    if settings.user_profile["mode"] == "cautious":  # Raise UserWarnings\n',
          '    if (settings.user_profile["mode"] == "cautious" and\n            not logger_set):  # Raise UserWarnings\n')],
  shims=[],
  demo='''
import io, logging, os, shutil, sys, tempfile, warnings
from echidna import settings, utilities
d = tempfile.mkdtemp()
logging.disable(logging.NOTSET)
err, sys.stderr = sys.stderr, io.StringIO()
raised = False
try:
    settings.user_profile["log_save_path"] = d + "/"
    utilities.start_logging()
    settings.user_profile["mode"] = "cautious"
    utilities.start_logging()
    try:
        warnings.warn("careful", UserWarning)
    except UserWarning:
        raised = True
    logging.shutdown()
finally:
    sys.stderr = err
    shutil.rmtree(d)
assert raised
'''),
]
