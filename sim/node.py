"""A simulated client node: real store, controller and HTTP API on simulated everything else."""

from __future__ import annotations

import os

from hyperlink import URL
from treq.client import HTTPClient
from twisted.python.filepath import FilePath

from allmydata.client import _valid_config
from allmydata.node import config_from_string

from _zkapauthorizer._plugin import open_store
from _zkapauthorizer.controller import PaymentController, RistrettoRedeemer
from _zkapauthorizer.model import VoucherStore
from _zkapauthorizer.pricecalculator import PriceCalculator
from _zkapauthorizer.private import create_private_tree
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.resource import (
    _CalculatePrice,
    authorizationless_resource_tree,
    from_configuration,
)

from .core import Process
from .http import Api, SimAgent

TOKEN = b"swordfish-" + b"0" * 22
ROOT_URL = "https://issuer.invalid/"


class ClientNode:
    """
    One node, which may be started, crashed and started again.

    :ivar options: groups, tokens, allowed keys, full (wire everything from a
        configuration file rather than by hand).
    """

    def __init__(self, sim, db, route, groups, tokens, allowed, full=False, name="node", client_config=None, plugin_config=""):
        self.sim = sim
        self.db = db
        self.route = route
        self.groups = groups
        self.tokens = tokens
        self.allowed = set(allowed)
        self.full = full
        self.name = name
        self.client_config = "shares.needed = 3\nshares.total = 10" if client_config is None else client_config
        self.plugin_config = plugin_config
        self.incarnation = 0
        self.proc = None
        self.api = None
        self.basedir = os.path.join(sim.scratch, name)
        os.makedirs(os.path.join(self.basedir, "private"), exist_ok=True)
        with open(os.path.join(self.basedir, "private", "api_auth_token"), "wb") as f:
            f.write(TOKEN)

    @property
    def up(self):
        return self.proc is not None and self.proc.alive and self.api is not None

    def config(self):
        return config_from_string(
            self.basedir,
            "tub.port",
            f"""
[node]
nickname = sim
[client]
{self.client_config}
[storageclient.plugins.privatestorageio-zkapauthz-v2]
redeemer = ristretto
ristretto-issuer-root-url = {ROOT_URL}
default-token-count = {self.tokens}
allowed-public-keys = {",".join(sorted(self.allowed))}
{self.plugin_config}
""",
            _valid_config(),
        )

    def boot(self):
        """
        Start the process.  Raises what starting it raises.
        """
        self.incarnation += 1
        proc = self.proc = Process(self.sim, f"{self.name}#{self.incarnation}")
        self.api = None
        self.sim.log("boot", self.incarnation)
        try:
            conn = with_replication(self.db.connect(proc), False)
            if self.full:
                self.store = open_store(proc.now, conn, self.config())
            else:
                self.store = VoucherStore.from_connection(1000, proc.now, conn)
            self.redeemer = RistrettoRedeemer(HTTPClient(SimAgent(proc, self.route)), URL.from_text(ROOT_URL))
            if self.full:
                root = from_configuration(
                    self.config(),
                    self.store,
                    self.get_downloader,
                    self.setup_replication,
                    self.redeemer,
                    proc.clock,
                )
                self.controller = root.controller
            else:
                self.controller = PaymentController(
                    proc.clock, self.store, self.redeemer, self.tokens, self.allowed, self.groups
                )
                root = create_private_tree(
                    lambda: TOKEN,
                    authorizationless_resource_tree(
                        self.store,
                        self.controller,
                        self.get_downloader,
                        self.setup_replication,
                        _CalculatePrice(PriceCalculator(3, 10, 1000), 31 * 24 * 3600),
                    ),
                )
        except BaseException:
            # A process that cannot start exits.
            if proc.alive:
                proc.kill("boot-failed")
            raise
        self.root = root
        self.api = Api(proc, root, TOKEN)

    def get_downloader(self, cap):
        raise NotImplementedError("no recovery in this world")

    async def setup_replication(self):
        raise NotImplementedError("no replication in this world")

    def crash(self, why="crash"):
        if self.proc is not None and self.proc.alive:
            self.proc.kill(why)

    def basepath(self):
        return FilePath(self.basedir)
