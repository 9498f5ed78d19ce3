from concurrent.futures import *
from concurrent.futures import PENDING, RUNNING, CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED
