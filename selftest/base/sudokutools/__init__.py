"""Yet another python sudoku library.

sudokutools is a collection of functions and classes, which enable you
to read, create, analyze, solve and print sudokus.

For a short introduction see: https://github.com/messersm/sudokutools

Package modules:
 * sudokutools.analyze: Check, rate and analyze sudokus.
 * sudokutools.dlx: Internal module - do not use.
 * sudokutools.generate: Create new sudokus.
 * sudokutools.solve: Low-level solving of sudokus.
 * sudokutools.solvers: High level solving of sudokus.
 * sudokutools.sudoku: Parse, print and compare sudokus.
"""

__author__ = "Maik Messerschmidt"
__email__ = "maik.messerschmidt@gmx.net"
__license__ = "MIT"
__version__ = "0.5.0-dev"
