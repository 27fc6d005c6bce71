"""Small fixed guests."""
from asm import Asm


def undelegated_irq():
    """A supervisor software interrupt that is not delegated, taken in user
    mode. Ends with 0 in the machine handler, 5 in the supervisor handler."""
    a = Asm()
    a.la(5, 'mh')
    a.csr('csrrw', 0, 'mtvec', 5)
    a.la(5, 'sh')
    a.csr('csrrw', 0, 'stvec', 5)
    a.csr('csrrw', 0, 'mideleg', 0)
    a.csr('csrrwi', 0, 'mie', 2)
    a.csr('csrrwi', 0, 'mip', 2)
    a.la(5, 'user')
    a.csr('csrrw', 0, 'mepc', 5)
    a.csr('csrrw', 0, 'mstatus', 0)
    a.mret()
    a.label('user')
    a.li(10, 7)
    for _ in range(40):
        a.op('addi', 11, 11, 1)
    a.ebreak()
    while len(a.words) % 4:
        a.nop()
    a.label('mh')
    a.li(10, 0)
    a.ebreak()
    for _ in range(6):
        a.nop()
    a.label('sh')
    a.li(10, 5)
    a.ebreak()
    for _ in range(16):
        a.nop()
    return a.code()
