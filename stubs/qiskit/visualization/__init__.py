import os
