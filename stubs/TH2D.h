#pragma once
class TH2D;
