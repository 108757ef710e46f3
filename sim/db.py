"""
SQLite behind a seam: the real library on real files in a scratch directory,
with crashes and errors at every statement and commit boundary.
"""

from __future__ import annotations

import os
import shutil
import sqlite3

from .core import SimCrash

ERRORS = ["database or disk is full", "disk I/O error", "database is locked"]


def is_query(sql):
    s = sql.lstrip().upper()
    return s.startswith("SELECT")


class SimDB:
    """
    A database file that survives crashes of the processes using it.
    """

    def __init__(self, sim, name, swarm):
        self.sim = sim
        self.name = name
        self.swarm = swarm
        self.generation = 0
        self.path = os.path.join(sim.scratch, f"{name}.sqlite3")
        self.enabled = True
        self.points = 0
        self._reader = None
        self.proc = None
        self.only = None  # (point index, action): a targeted interruption
        # Called after each commit
        self.on_commit = []
        sim.at_close.append(self.close_reader)

    def connect(self, proc, isolation_level="IMMEDIATE"):
        self.proc = proc
        image = None
        if os.path.exists(self.path):
            with open(self.path, "rb") as f:
                image = f.read()
        self.image = image
        real = sqlite3.connect(self.path, isolation_level=isolation_level)
        conn = SimConnection(self, proc, real)
        self.current = conn
        proc.on_kill.append(lambda: self._killed(conn))
        return conn

    def _killed(self, conn):
        """
        The process is gone: what is in the file and its journal right now is
        what survives.
        """
        if conn.dead:
            return
        conn.dead = True
        self.close_reader()
        self.generation += 1
        new = os.path.join(self.sim.scratch, f"{self.name}.{self.generation}.sqlite3")
        try:
            (sync,) = conn.real.execute("PRAGMA synchronous").fetchone()
        except Exception:
            sync = 2
        for suffix in ("", "-journal", "-wal"):
            if os.path.exists(self.path + suffix):
                shutil.copyfile(self.path + suffix, new + suffix)
        if sync == 0 and self.sim.faults_on:
            # Nothing was ever flushed: a power failure loses it all.
            for suffix in ("", "-journal", "-wal"):
                if os.path.exists(new + suffix):
                    os.unlink(new + suffix)
            if self.image is not None:
                with open(new, "wb") as f:
                    f.write(self.image)
        try:
            conn.real.close()
        except Exception:
            pass
        for suffix in ("", "-journal", "-wal", "-shm"):
            if os.path.exists(self.path + suffix):
                os.unlink(self.path + suffix)
        self.path = new

    def point(self, conn, what, sql=""):
        """A point at which the process may be killed or the call may fail."""
        if conn.dead or not conn.proc.alive:
            raise SimCrash()
        if not self.enabled:
            return None
        self.points += 1
        if self.only is not None:
            idx, action = self.only
            if self.points == idx:
                self.sim.count("fault:db-" + action)
                self.sim.log("db-fault", action, what)
                if action == "crash":
                    conn.proc.crash("crash-db")
                if action == "crash-after":
                    return "crash-after"
                if action.startswith("error"):
                    return action
            return None
        sim = self.sim
        if not sim.faults_on:
            return None
        if what == "commit":
            if sim.fault("crash-before-commit", self.swarm["db-crash"]):
                conn.proc.crash("crash-db")
            if sim.fault("crash-after-commit", self.swarm["db-crash"]):
                return "crash-after"
            if sim.fault("commit-error", self.swarm["db-error"]):
                return "error"
        else:
            if sim.fault("crash-at-statement", self.swarm["db-crash"] / 4):
                conn.proc.crash("crash-db")
            if sim.fault("statement-error", self.swarm["db-error"] / 4):
                # Some errors also roll the transaction back.
                return "error-rollback" if sim.ch.flag(0.4) else "error"
        return None

    def error(self):
        which = 0 if self.only is not None else self.sim.ch.pick(len(ERRORS))
        e = sqlite3.OperationalError(ERRORS[which])
        e.injected = True
        return e

    def dump(self):
        """The committed contents, read through a connection of our own."""
        if self._reader is None:
            if not os.path.exists(self.path):
                return {}
            self._reader = sqlite3.connect(self.path, isolation_level=None)
        return dump_conn(self._reader)

    def close_reader(self):
        if self._reader is not None:
            self._reader.close()
            self._reader = None


SKIP = {"event-stream", "sqlite_sequence"}


def dump_path(path, skip=SKIP):
    if not os.path.exists(path):
        return {}
    c = sqlite3.connect(path)
    try:
        return dump_conn(c, skip)
    finally:
        c.close()


def dump_conn(c, skip=SKIP):
    out = {}
    names = [n for (n,) in c.execute("SELECT name FROM sqlite_master WHERE type='table'")]
    for n in sorted(names):
        if n in skip:
            continue
        cur = c.execute(f"SELECT * FROM [{n}]")
        cols = [d[0] for d in cur.description]
        out[n] = sorted(
            (tuple(sorted((k, v) for k, v in zip(cols, row) if v is not None)) for row in cur.fetchall()),
            key=repr,
        )
    return out


def rows(dump, table):
    return [dict(r) for r in dump.get(table, [])]


class SimConnection:
    def __init__(self, db, proc, real):
        self.db = db
        self.proc = proc
        self.real = real
        self.dead = False
        self.changes = 0

    def cursor(self, *a, **kw):
        if self.dead:
            raise SimCrash()
        return SimCursor(self, self.real.cursor(*a, **kw))

    def execute(self, sql, args=()):
        c = self.cursor()
        c.execute(sql, args)
        return c

    def executemany(self, sql, args):
        c = self.cursor()
        c.executemany(sql, args)
        return c

    def commit(self):
        act = self.db.point(self, "commit") if self.real.in_transaction else None
        if act is not None and act.startswith("error"):
            raise self.db.error()
        self.real.commit()
        changes = self.real.total_changes
        if changes != self.changes:
            self.changes = changes
            for f in self.db.on_commit:
                f()
        if act == "crash-after":
            self.proc.crash("crash-db")

    def rollback(self):
        if self.dead:
            raise SimCrash()
        self.real.rollback()

    def __enter__(self):
        if self.dead:
            raise SimCrash()
        return self

    def __exit__(self, t, v, tb):
        # As in Python up to 3.10, a commit that fails is not rolled back.
        if t is None:
            self.commit()
        else:
            self.rollback()
        return False

    def iterdump(self):
        if self.dead:
            raise SimCrash()
        return self.real.iterdump()

    def close(self):
        if not self.dead:
            self.real.close()

    @property
    def in_transaction(self):
        return self.real.in_transaction

    @property
    def isolation_level(self):
        return self.real.isolation_level

    @isolation_level.setter
    def isolation_level(self, v):
        self.real.isolation_level = v

    @property
    def row_factory(self):
        return self.real.row_factory

    @property
    def total_changes(self):
        return self.real.total_changes


class SimCursor:
    def __init__(self, conn, real):
        self.conn = conn
        self.real = real

    def _point(self, what, sql, some=None):
        act = self.conn.db.point(self.conn, what, sql)
        if act is not None and act.startswith("error"):
            if some is not None:
                # It fails half way through.
                some()
            if act == "error-rollback" and self.conn.real.in_transaction:
                self.conn.real.rollback()
            raise self.conn.db.error()
        return act

    def execute(self, sql, args=()):
        word = sql.strip().upper()
        if word.startswith(("COMMIT", "END")):
            self.conn.commit()
            return self
        act = self._point("execute", sql)
        self.real.execute(sql, args)
        if act == "crash-after":
            self.conn.proc.crash("crash-db")
        return self

    def executemany(self, sql, rows):
        rows = list(rows)
        act = self._point("executemany", sql, lambda: self.real.executemany(sql, rows[: len(rows) // 2]))
        self.real.executemany(sql, rows)
        if act == "crash-after":
            self.conn.proc.crash("crash-db")
        return self

    def _alive(self):
        if self.conn.dead:
            raise SimCrash()

    def fetchall(self):
        self._alive()
        return self.real.fetchall()

    def fetchone(self):
        self._alive()
        return self.real.fetchone()

    def fetchmany(self, *a):
        self._alive()
        return self.real.fetchmany(*a)

    def __iter__(self):
        return iter(self.fetchall())

    @property
    def lastrowid(self):
        return self.real.lastrowid

    @property
    def rowcount(self):
        return self.real.rowcount

    @property
    def description(self):
        return self.real.description

    @property
    def connection(self):
        return self.conn

    def close(self):
        if not self.conn.dead:
            self.real.close()
