#!/usr/bin/env python3
"""Runs the check of one property: run.py <property>. Reads VERIF_SEED and VERIF_TIER."""

from verif import client, core, network, ports, protocol, server, storage

CHECKS = {**storage.CHECKS, **server.CHECKS, **client.CHECKS, **ports.CHECKS, **protocol.CHECKS, **network.CHECKS}

if __name__ == "__main__":
    core.main(CHECKS)
