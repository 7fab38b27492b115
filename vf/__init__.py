"""Machinery shared by the checks: TLC driver, WSGI client, evidence and verdict reporting."""
