"""Counts the loop iterations that the code under test executes (sys.monitoring):
the measure of effort for checks that bound it. Used in the symbolic and in the
concrete interpretation alike."""
from __future__ import annotations

import os
import sys

ROOT = os.path.join(os.environ.get("VFB_REPO", "/repo"), "src") + os.sep
_state = {"count": None, "limit": 0, "installed": False}
TOOL = 3


class TooMuch(BaseException):
    pass


def _jump(code, off, dest):
    if not code.co_filename.startswith(ROOT):
        return sys.monitoring.DISABLE
    if _state["count"] is None:
        return None
    _state["count"] += 1
    if _state["count"] > _state["limit"]:
        _state["count"] = None
        raise TooMuch
    return None


def _install():
    m = sys.monitoring
    if not _state["installed"]:
        m.use_tool_id(TOOL, "sx-work")
        m.register_callback(TOOL, m.events.JUMP, _jump)
        _state["installed"] = True


def bounded(limit, fn, *a, **k):
    """Runs fn; returns (within the limit, result, exception)."""
    _install()
    m = sys.monitoring
    m.set_events(TOOL, m.events.JUMP)
    _state["count"], _state["limit"] = 0, limit
    try:
        return True, fn(*a, **k), None
    except TooMuch:
        return False, None, None
    except Exception as e:
        return True, None, e
    finally:
        _state["count"] = None
        m.set_events(TOOL, 0)
