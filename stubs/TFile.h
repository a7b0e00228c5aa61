#pragma once
class TFile;
